# property texts; tools/gen.py writes properties.jsonl and MANIFEST.json from this
I, H, S, C, F = 'inputs', 'histories', 'schedules', 'configurations', 'fault_sequences'
P = []
def prop(id, title, statement, over, text, why, files, mech, note, level='proof', tech='contract-based deductive verification (own VC generator over LLVM IR of the real code; z3/cvc5)', observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, level=level, tech=tech, observe=observe))
NA = []
def na(id, title, statement, over, text, why, files, mech, reason, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=None, level=None, tech=None, observe=observe))
    NA.append((id, reason))

prop('M01', 'Base64 encoding is RFC 4648 for every input and every chunking',
 'For any byte string fed to the base64 encoder in any sequence of pieces (empty ones included), the characters emitted by all pieces followed by the final call are exactly the RFC 4648 base64 text of the whole string, padded with "=", with no line breaks. Every call writes exactly the number of characters it returns and reads only the bytes it was given.',
 [I, H], 'all byte strings, all splits into pieces below 2^31 bytes, all encoder states between pieces',
 'No test calls the base64 code at all; the result depends on the state carried between pieces and on input length modulo 3, which samples cannot exhaust.',
 ['src/b64/src/cencode.cpp', 'src/b64/include/cencode.h'], [('incremental encode state machine', 'src/b64/src/cencode.cpp:base64_encode_block'), ('padding', 'src/b64/src/cencode.cpp:base64_encode_blockend'), ('alphabet', 'src/b64/src/cencode.cpp:base64_encode_value')],
 'All obligations of the encoder (loop invariant over a ghost stream, any piece length, any state) discharged without bound; composition over pieces follows because each call maps an abstract stream prefix to a longer one.')
prop('M02', 'Base64 decoding returns the encoded bytes for every text and every chunking',
 'For any text fed to the base64 decoder in any sequence of pieces, the bytes produced are the complete bytes of the bit string formed by the base64 digits in order, six bits each; every character that is not one of the 64 digits (padding, white space, any other byte value) is skipped wherever it occurs. No call writes more than one byte beyond the bytes it returns, and none reads outside the text or its own tables.',
 [I, H], 'all texts over all 256 byte values, all splits into pieces below 2^31 characters, all decoder states between pieces',
 'No test calls the decoder; the failing cases are particular byte values (one past the table) and particular split points.',
 ['src/b64/src/cdecode.cpp', 'src/b64/include/cdecode.h'], [('incremental decode state machine', 'src/b64/src/cdecode.cpp:base64_decode_block'), ('digit lookup', 'src/b64/src/cdecode.cpp:base64_decode_value')],
 'All obligations discharged without bound (nested loops cut with invariants over a ghost digit count). The reference is the bit string of the digits; the one spare byte the decoder touches behind its output is part of the stated contract.')
prop('M03', 'The section checksum is CRC-32/MPEG-2 for every buffer',
 'For every byte buffer of any length and alignment, the checksum computed with the default start value is the CRC-32/MPEG-2 of exactly those bytes (polynomial 0x04C11DB7, most significant bit first, start value all ones, no final inversion). Creating or using several generators, one after another or together in one thread, never changes the result.',
 [I, H], 'all buffers below 2^32 bytes, all alignments, generators created in any number',
 'No test computes a checksum; the optimised path handles unaligned heads and tails separately and uses four 256-entry tables, so a wrong entry shows only on particular bytes at particular offsets.',
 ['src/mg/media/wincrc.cpp', 'src/mg/media/wincrc.h'], [('table initialisation', 'src/mg/media/wincrc.cpp:av_crc_init'), ('checksum loops', 'src/mg/media/wincrc.cpp:av_crc'), ('byte order and default start', 'src/mg/media/wincrc.h:crc_32')],
 'All 1024 table entries checked against polynomial division by evaluation; the three loops proved for any length with the bit-serial division as the specification (GF(2) normal forms for the linear steps).')
prop('M04', 'Checked numeric conversions return the same value or report overflow',
 'Every checked conversion helper of the core library (64-bit to 32-bit, unsigned to signed, size to 32-bit, signed size to unsigned, double to and from unsigned 64-bit) either returns a value equal to the one given or reports overflow by exception. It reports exactly when the value does not fit the target (negative sizes and doubles, not-a-number and doubles from 2^64 on do not fit; a signed size fits up to 2^31-1). From a double the value is truncated toward zero; to a double it is the nearest one.',
 [I], 'all 64-bit integers and all doubles, including NaN and infinities',
 'No test calls the helpers; the failures are at single boundary values.',
 ['src/mg/core/core.h'], [('conversions', 'src/mg/core/core.h:U64_DBL'), ('conversions', 'src/mg/core/core.h:DBL_U64'), ('conversions', 'src/mg/core/core.h:is_u32'), ('conversions', 'src/mg/core/core.h:U64_i64'), ('conversions', 'src/mg/core/core.h:ST_u32')],
 'Postconditions of each helper discharged over all bit patterns (bit vectors and IEEE floating point).')
prop('M05', 'Reading bits returns the bits of the source after any sequence of operations',
 'For a bit reader over a byte source held in memory, with any read buffer of at least 5 bytes (or one that holds the whole source), and for every sequence of operations: reading or peeking n bits (0 to 32) returns the next n bits of the source, most significant bit first (sign extended for the signed forms; byte-wise least significant first for the little-endian form), and reading advances the position by n; a request for more bits than remain reports end of data and changes nothing; skipping, aligning, byte reads and searching for a code move to exactly the stated position or to the end of the source; setting a byte position makes the following reads start there; the end is announced exactly when no bit remains. No operation touches memory outside the source and the buffers, and every operation terminates.',
 [I, H], 'all sources below 2^40 bytes, all buffer sizes from 5 bytes to 2^29, every state of the two buffers reachable by any history of operations (representation invariant), all argument values; storage that answers synchronously (memory)',
 'The tests read a few files with one buffer size; the failures sit at buffer switches, at the last bytes and at particular sequences of skip, seek and peek.',
 ['src/mg/core/bitstream.h', 'src/mg/media/TBitstream.h'], [('peek and read', 'src/mg/core/bitstream.h:_nextbits'), ('buffer switch', 'src/mg/core/bitstream.h:fill_buf'), ('asynchronous fill', 'src/mg/core/bitstream.h:read_cb'), ('seek', 'src/mg/core/bitstream.h:_set_position_read'), ('memory source', 'src/mg/media/TBitstream.h:fixed_memory_read')],
 'A representation invariant over the two buffers, the storage position and the bit position is shown to be established by creation and preserved by every operation, each with its value postcondition; fill_buf, _nextbits and _skipbits are proved once and replaced by their contract in their callers. align is proved for 8, 16, 32 and 64 bit boundaries; the argument of a byte read must be at a byte position; skip counts are 16-bit. The thread hand-over with an asynchronous file source is not covered.')
prop('M06', 'Written bits arrive at the storage unchanged, in order and complete',
 'For a bit writer with any buffer of at least 5 bytes and for every sequence of operations: writing n bits (0 to 32) of a value appends exactly its n low bits, most significant first (byte-wise least significant first for the little-endian form); a byte write at a byte position appends exactly those bytes; flushing hands every complete byte to the storage, once and in order; the bit position always equals the number of bits written (or follows from the position set); setting a byte position first sends what is pending and then continues there. The memory storage keeps every byte written at its position, changes no other stored byte, grows as needed, reports its position and size exactly, and reads back what was stored. No operation touches memory outside the buffers.',
 [I, H], 'all buffer sizes from 5 bytes to 2^29, every buffer state reachable by any history (representation invariant), all values, byte writes below 2^32 bytes, storage below 2^32 bytes; seeks and byte writes at byte positions',
 'The tests write a few patterns with one buffer size; the failures sit at buffer switches, in the last partial byte, after very long writes and in particular sequences of write, seek and flush.',
 ['src/mg/core/bitstream.h', 'src/mg/media/TBitstream.h'], [('bit writes', 'src/mg/core/bitstream.h:_putbits'), ('flush', 'src/mg/core/bitstream.h:flush_buf'), ('byte writes', 'src/mg/core/bitstream.h:write'), ('memory storage', 'src/mg/media/TBitstream.h:fixed_memory_write')],
 'Every operation starts from an arbitrary state of the representation invariant against a ghost target string and re-establishes it; the storage given to the writer accepts only the next bytes of the target. The memory storage is proved against the same interface, from an arbitrary state of its own invariant. The thread hand-over with an asynchronous file target is not covered.')
prop('M07', 'The growable buffer keeps its content and never overruns',
 'For the growable buffer with any element type and any history of operations: appending places exactly the elements given behind those already committed and changes none of them, growing as needed, also when a buffer, or part of it, is appended to itself; preparing gives more free room than asked for and keeps the content; reading at a position returns the committed elements there, as many as are available and fit, and fails only behind the committed part; replacing an element changes that element alone; taking back shrinks the committed part by exactly the size given (clearing it when asked); a reset buffer is empty and clear. Sizes and free room always add up, no operation touches memory outside the allocation, and memory replaced by growing is released.',
 [I, H], 'all sizes below 2^32 elements (2^30 for a 32-bit size type), all buffer states reachable by any history, three element and size type combinations',
 'The tests append a few values once; failures depend on how much room is left at the moment of an append, on the read position, and on aliasing.',
 ['src/mg/cbuffer.h'], [('append', 'src/mg/cbuffer.h:add'), ('growth', 'src/mg/cbuffer.h:growth'), ('positioned read', 'src/mg/cbuffer.h:ReadBuffer'), ('append a buffer', 'src/mg/cbuffer.h:operator+='), ('taking back', 'src/mg/cbuffer.h:ResetBuffer')],
 'Instantiated for 1-byte and 12-byte elements with size_t and 2-byte elements with a 32-bit size type; the stated preconditions of the header (sizes given to the direct-access functions within the free room, index within the buffer) are requirements. 32-bit size arithmetic is only covered below 2^30.')
prop('M08', 'A shared object is destroyed exactly once, with its last handle',
 'For the reference counted handle: the number of handles holding an object always equals its count; the object stays alive while any handle holds it and is destroyed exactly once when the last one lets go, by destruction or by assignment; a registered clean-up function is called exactly once, with the still existing object, immediately before that destruction and never otherwise. Assigning a handle to itself, to another handle of the same object, or from a handle stored inside the object being released is safe. Creating an object in a handle that already holds one, and using an empty handle, is reported and changes nothing.',
 [I, H], 'all counts below 2^31, every aliasing of the two handles of an assignment, with and without clean-up function; single thread',
 'The tests share an object between two handles once; the failures are particular aliasings and orders of release.',
 ['src/mg/cresource.h'], [('assignment', 'src/mg/cresource.h:Assign'), ('release', 'src/mg/cresource.h:release'), ('creation', 'src/mg/cresource.h:Create'), ('clean-up function', 'src/mg/cresource.h:add_cleanup_function')],
 'Every operation is proved from an arbitrary count to change exactly the counts of the handles involved; destruction and clean-up are observed through ghost counters in the instantiated object type. Objects that hold handles in cycles are never destroyed, by design; counting across threads is not claimed.')
prop('M11', 'A string holds exactly the text its operations build',
 'For the string class with any history of operations: after construction, assignment, appending (text, another string, itself or part of itself), concatenation, cloning, taking a part, clearing, and writing through the direct buffer, the string holds exactly the characters that operation defines, is followed by a terminator inside its memory, and reports exactly their number. A part never has more characters than asked for or available. Copies and assigned strings share the buffer; concatenation, cloning and parts have their own. Comparison, searching forward and searching for the last occurrence agree with the text. No operation changes a string it is not applied to (other than sharers), touches memory outside the buffers, uses released memory, or loses any.',
 [I, H], 'all texts without embedded zero below 2^29 characters, every state of the buffer (length, memory, initial size) reachable by any history, all aliasing between source and target',
 'The tests build a few short strings; failures need a particular amount of room left, an aliased source, or a part at the end of the text.',
 ['src/mg/alxstring.h', 'src/mg/cbuffer.h'], [('assignment', 'src/mg/alxstring.h:operator='), ('append', 'src/mg/alxstring.h:operator+='), ('part', 'src/mg/alxstring.h:subString'), ('search', 'src/mg/alxstring.h:rfind'), ('comparison', 'src/mg/alxstring.h:operator==')],
 'Every operation of the 8-bit string starts from an arbitrary state of the representation invariant and is proved down to the growable buffer. strlen, strcmp and strstr are assumed contracts of the C library (rfind is proved against the contract of strstr); the text searched for with rfind is not empty; the initial size is positive. The wide string is not claimed.')
prop('M12', 'Numbers, bytes and key identifiers become the right text and back',
 'Appending an integer to a string appends exactly its decimal text and a formatted append exactly the formatted text (cut at 2047 characters), behind the text already there. Appending bytes as hexadecimal appends two upper-case digits for each byte in order; reading hexadecimal from any place in a string returns exactly the bytes its digit pairs denote and reports text that is not hexadecimal. Reading a number converts the whole text with the conversion of the type asked for and reports text that is no number; the words for true are exactly 1, true, yes, TRUE and True. A 16 byte key identifier prints as groups of 4, 2, 2, 2 and 6 bytes joined by dashes, and its binary form reverses the bytes of the first three groups.',
 [I], 'all values of every integer type, all byte strings below 2^29 bytes, all strings and start positions, all key identifiers',
 'The tests append two numbers; sign, width, room left in the buffer and digit order show only for particular values.',
 ['src/mg/alxstring.h', 'src/mgcli/cenc_provider.h'], [('number append', 'src/mg/alxstring.h:operator+='), ('formatted append', 'src/mg/alxstring.h:append_format'), ('hexadecimal', 'src/mg/alxstring.h:append_hex_buffer'), ('hexadecimal back', 'src/mg/alxstring.h:extract_binary_hex'), ('key identifier', 'src/mgcli/cenc_provider.h:kid_to_string'), ('binary key identifier', 'src/mgcli/cenc_provider.h:binary_encode_kid')],
 'sprintf, vsnprintf and sscanf are assumed contracts of the C library: the format must be that of the type, the room must suffice, and the text or value they produce is what must be appended or returned. Hexadecimal append uses the contract of += proved for M11. Float append is not claimed.')
prop('M16', 'A time in 100 ns units prints as its hours, minutes, seconds and milliseconds',
 'For every time of at least 0 in units of 100 ns, the parts returned are its whole hours, and the minutes, seconds and milliseconds left over (below 60, 60 and 1000), a time made from parts is their sum, and its text is hours, minutes and seconds with at least two digits separated by colons, then a point and exactly three digits of milliseconds. The text of a negative time is a minus sign followed by the text of its amount.',
 [I], 'all times from -(2^63-1) to 2^63-1; parts that sum without 64-bit overflow',
 'No test prints a time; padding, carries and the width of the hours show only for particular values.',
 ['src/mg/media/hnano.h'], [('text', 'src/mg/media/hnano.h:ToString'), ('sign', 'src/mg/media/hnano.h:hns'), ('parts', 'src/mg/media/hnano.h:HundredNano')],
 'The parts are proved of their functions and used by contract in the text; sprintf is an assumed contract of the C library (decimal digits of a non-negative 64-bit number). The smallest 64-bit number is excluded: it has no amount.')
prop('M17', 'Joined streams keep their distances and none starts before its end',
 'For any number of streams, each with the end time of its first part and the start time of its second, the join time of every stream is not before its end, at least one stream continues exactly at its end, and the difference between join time and start time is the same for all streams. The difference reported for a stream is its distance to the latest end plus that of its start to the earliest start (both taken as negative).',
 [I], 'all numbers of streams from 1 to 2^20-1, all times from 0 to 2^60; times computed once',
 'No test joins streams; a wrong extreme or sign shows only when the latest end and the earliest start belong to particular, different streams.',
 ['src/mg/media/MediaJoin.h'], [('differences', 'src/mg/media/MediaJoin.h:Compute'), ('join time', 'src/mg/media/MediaJoin.h:GetJoinTime')],
 'std::vector (creation, push_back) and std::max_element are assumed contracts of the C++ library. Both loops are proved for every number of streams with ghost functions for the latest end and the earliest start so far.')
prop('M18', 'Decoding a NAL unit removes exactly the emulation prevention bytes',
 'For every H.264 NAL unit of at least one byte, decoding yields the unit type and reference value of its first byte, and exactly the bytes of the unit in order without the emulation prevention bytes: each byte 3 that follows two zero bytes of the payload. Nothing else is removed or changed, at the end of the unit neither. The result is the same when the unit is decoded in place and when the decoder was used before; the unit given is otherwise left unchanged.',
 [I, H], 'all units of 1 to 2^31-1 bytes whose first bit is 0, every state of the buffer left by earlier units, decoding in place and into the buffer',
 'No test decodes a NAL unit; failures need particular bytes at the end of the unit or next to each other, or a unit that just does not fit the buffer.',
 ['src/mg/media/h264nal.h', 'src/mg/cbuffer.h'], [('removal', 'src/mg/media/h264nal.h:decode_nal'), ('in place', 'src/mg/media/h264nal.h:decode_nal_in_place')],
 'The bit reader is used through its contract (proved for M05): it returns the bits of the bytes that have not been changed since it was made. One include of a generated header that the decoder does not use is satisfied by an empty file.')
prop('M19', 'Time codes add, subtract, pack and unpack exactly',
 'For time codes of hours, minutes, seconds and frames within range: the sum is the time of day that many frames later (wrapping after 24 hours), the difference of a time and one not later is the exact time between them, the increment is the next frame, all parts staying in range. The packed form holds two decimal digits for every part and unpacks to the same time. A time in 100 ns units becomes its hours, minutes, seconds and 25ths of a second. The 80 bits of a linear time code word, received one by one whatever came before, are recognised exactly when the last 16 are the sync pattern and give exactly the time they encode.',
 [I, H], 'all valid time codes at 1 to 120 frames a second (increment: 25; packed: up to 100), times below 2^32 seconds, every earlier content of the word, every value of the user bits',
 'No test uses time codes; borrows and carries through several parts happen only for particular pairs of values.',
 ['src/mg/media/WaveParser.h'], [('arithmetic', 'src/mg/media/WaveParser.h:operator-'), ('arithmetic', 'src/mg/media/WaveParser.h:operator+'), ('packed form', 'src/mg/media/WaveParser.h:operator uint32_t'), ('linear time code', 'src/mg/media/WaveParser.h:GetTimeCode')],
 'All operations proved over all values, no bound. Sums and differences carry the frame rate of their operands only implicitly: the result object has the default rate, so comparisons of validity at another rate are not claimed.')

prop('M20', 'Corrected audio times advance by whole frames and never go back',
 'For every sequence of times of an audio stream, the first is kept, and each later corrected time is the one before plus a long frame (1025 samples) when at least that much time has passed, else plus a short frame (1024 samples); what the times given are ahead of (or behind) the frames counted accumulates, and once a short frame finds as much accumulated as the two frames differ by, it is made that much longer and that much is taken off. When the result would be more than a long frame behind the time given, the time given is taken instead. So corrected times never go back and are never more than a long frame behind. Streams do not influence each other, and a stream without a sample rate is left alone.',
 [H, I], 'all sequences of times within 9e15 (in 100 ns units), all frame durations below 1e12, every amount accumulated; the durations themselves for the 13 standard sample rates',
 'No test corrects times; what is accumulated over long sequences decides when a frame is lengthened, and particular times meet the limits.',
 ['src/mg/media/aac_time_fix.h'], [('correction', 'src/mg/media/aac_time_fix.h:fix_audio_frequency_timing'), ('frame durations', 'src/mg/media/aac_time_fix.h:set_info')],
 'One step is proved from every state (previous time, accumulated amount, durations). Sums of doubles are left uninterpreted in that proof; the facts used about them (size, sign, monotony) are proved over IEEE doubles in harnesses of their own.')
GEN = 'The sources of this part include headers that are generated by a tool and are not in the repository (mp4/*.h and the like), and the build does not compile them: there is no code to put under contract, and a hand-written stand-in of the missing parts would be a model.'
na('M31', 'MP4 files written can be read back with the same samples',
 'For every sequence of samples given to the MP4 multiplexer, parsing the file it writes gives the same tracks, samples, times, sync flags and bytes, and editing or fragmenting keeps them.',
 [I, H], 'all sample sequences', 'Round trips over whole files cannot be sampled exhaustively.',
 ['src/mg/media/mp4write.h', 'src/mg/media/mp4parse.h'], [('writing', 'src/mg/media/mp4write.h'), ('parsing', 'src/mg/media/mp4parse.h')], GEN)
na('M32', 'Transport stream packets carry every elementary byte once and in order',
 'For every sequence of access units the transport stream multiplexer writes 188 byte packets with correct continuity counters, tables and checksums, whose payloads are exactly the units in order.',
 [I, H], 'all sequences of access units', 'Stuffing and counters depend on exact sizes and long histories.',
 ['src/mg/media/tsmux.h', 'src/mg/media/tswrite.h'], [('multiplexing', 'src/mg/media/tsmux.h'), ('packets', 'src/mg/media/tswrite.h')], GEN)
na('M33', 'Playlists and manifests describe exactly the segments produced',
 'The HLS playlists and the DASH manifest list every segment once, in order, with its duration, and their totals agree with the media.',
 [I], 'all presentations', 'Rounding and counts differ only for particular durations.',
 ['src/mg/media/hls_renderer.h', 'src/mg/media/mpd_renderer.h'], [('playlists', 'src/mg/media/hls_renderer.h'), ('manifest', 'src/mg/media/mpd_renderer.h')], GEN)
na('M34', 'Asynchronous file operations complete once, in order, with the right bytes',
 'Every read or write posted to a file calls its completion exactly once, with the bytes at the position asked for, whatever the order of posting and completion.',
 [S, H], 'all schedules of the loop thread and the posting threads', 'A test sees one schedule.',
 ['src/mg/core/file.cpp', 'src/mg/core/uvbase.cpp'], [('posting and completion', 'src/mg/core/file.cpp')],
 'The guarantee rests on interleavings of threads with libuv callbacks; sequential contracts cannot express it, and no deductive verifier for concurrent C++ is installed.')
na('M35', 'A signal set while a thread starts to wait is not lost',
 'A thread that waits for an event returns once the event has been set, whatever the interleaving of setting and starting to wait.',
 [S], 'all interleavings', 'The losing interleaving is a few instructions wide.',
 ['src/mg/core/thread.h', 'src/mg/core/thread.cpp'], [('wait and set', 'src/mg/core/thread.cpp')],
 'A property of interleavings: the sequential contracts used here cannot express it, and no deductive verifier for concurrent C++ is installed.')
na('M36', 'Copying between asynchronous streams preserves content and order',
 'A copy between two asynchronous bit streams delivers every byte once and in order, also while buffers are being filled or written by another thread.',
 [S, H], 'all schedules', 'A test sees one schedule.',
 ['src/mg/core/bitstream.cpp', 'src/mg/core/bitstream.h'], [('hand-over', 'src/mg/core/bitstream.h:read_cb')],
 'The hand-over between threads is outside sequential contracts; the sequential part of the streams is decided by M05 and M06.')
