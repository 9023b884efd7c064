RB, WB, LEB = 'iamf/common/read_bit_buffer.cc', 'iamf/common/write_bit_buffer.cc', 'iamf/common/leb_generator.cc'
NU, NUH = 'iamf/common/utils/numeric_utils.cc', 'iamf/common/utils/numeric_utils.h'

prop('C01', 'Unsigned literals are read most-significant-bit first from any position',
     'Reading an n-bit unsigned literal, for every width the reader offers and from every bit position and chunking of the underlying source, returns exactly the next n bits of the source, most significant first, and advances the position by exactly n. '
     'If fewer than n bits remain, or n exceeds the width of the destination, the read fails, reports an error and leaves the destination as it was.',
     'every source content, bit position, literal width 0..64, destination type and buffer capacity',
     'Tests read a few literals at a few offsets from one short buffer; the position, width and chunk-boundary combinations are unbounded.',
     [RB, 'iamf/common/read_bit_buffer.h'], [('ReadUnsignedLiteralInternal / ReadUnsignedLiteralBits', RB)],
     note='scalar values and bit contents are unrestricted; sources of up to 16 bytes, buffers of up to 3 bytes when refilling is exercised.', level='other')
prop('C02', 'Unsigned literals are written most-significant-bit first, or refused',
     'Writing an n-bit unsigned literal appends exactly the n low bits of the value, most significant first, after whatever was written before and changes nothing before them. '
     'A value that does not fit in n bits, or a width beyond the type, is refused and leaves the buffer and its length as they were.',
     'every value, width, and number of bits already written',
     'Tests write a handful of aligned and unaligned values; the value x width x offset space is unbounded.',
     [WB, 'iamf/common/write_bit_buffer.h'], [('InternalWriteUnsigned / WriteBits', WB)], level='other',
     note='values and widths are unrestricted; up to 2 bytes already written.')
prop('C03', 'Signed integers, flags, strings and byte runs survive the bitstream',
     'Signed 8, 9 and 16 bit integers, booleans, NUL-terminated strings and byte runs are coded as two\'s complement, one bit, bytes followed by one NUL, and the bytes in order, at any bit offset. '
     'Reading consumes exactly the coded size and yields the coded value; a truncated source, a string without a NUL in its first 128 bytes, a string longer than 127 bytes and a value outside its range are refused.',
     'every value, string, byte run and bit offset',
     'Tests pick individual values; sign boundaries, embedded NUL bytes and truncation points combine freely.',
     [RB, WB], [('ReadSigned8/ReadSigned16/ReadBoolean/ReadString/ReadUint8Span', RB), ('WriteSigned8/WriteBoolean/WriteString/WriteUint8Span', WB)],
     note='signed/boolean contracts cover every source; strings and byte runs are bounded in length.')
prop('C04', 'ULEB128 integers round-trip and obey the 8-byte, 32-bit limits',
     'A ULEB128 integer is decoded from at most 8 bytes, little-endian base 128, and accepted exactly when it is terminated within 8 bytes and its value is below 2^32; the reported encoded size and the consumed bytes are those of the encoding. '
     'The minimum-size writer emits the shortest encoding, the fixed-size writer exactly the configured number of bytes, refusing values that need more, and every emitted encoding decodes to the value written.',
     'every 32-bit value, every 1..8 byte encoding, every generator configuration and truncation point',
     'Tests list a few encodings; 2^32 values with padding up to 8 bytes cannot be enumerated.',
     [RB, WB, LEB], [('ReadULeb128 / AccumulateUleb128Byte', RB), ('LebGenerator::Uleb128ToUint8Vector', LEB), ('WriteUleb128', WB)],
     note='decode proved against the contract of the literal reader (C01); generator proved for all values.')
prop('C05', 'ISO 14496-1 expandable class sizes round-trip and obey their limits',
     'An ISO 14496-1 expandable size is decoded from at most 8 bytes, big-endian base 128, and accepted exactly when it is terminated within 8 bytes and its value does not exceed the caller\'s maximum; exactly its encoding is consumed. '
     'The writer emits the shortest such encoding of every 32-bit value.',
     'every 32-bit value, encoding, maximum and truncation point',
     'Tests list a few encodings and maxima.',
     [RB, WB], [('ReadIso14496_1Expanded', RB), ('WriteIso14496_1Expanded', WB)],
     note='decode proved against the contract of the literal reader (C01); encode proved for all values at a byte-aligned start.')
prop('C06', 'Streamed reading equals reading the concatenated data, and seeking is exact',
     'Reading from a stream buffer yields the bits of all pushed chunks concatenated in order, whatever the chunk sizes and flush points; a position told earlier can be sought back to, after which the same bits are read again, and a seek outside the held data is refused without moving. '
     'Whether enough bits are available is answered exactly, flushing discards only fully consumed bytes, and pushing beyond the permitted total size is refused without changing the buffer.',
     'every sequence of pushes, reads, flushes, tells and seeks, with any chunk contents and sizes',
     'Tests run a few fixed histories; the interleaving of chunk sizes, flushes and seeks is unbounded.',
     [RB, 'iamf/common/read_bit_buffer.h'], [('StreamBasedReadBitBuffer::PushBytes/Flush', RB), ('ReadBitBuffer::Seek/Tell/CanReadBytes', RB)], over=('inputs', 'histories'),
     note='Seek/Tell/availability are proved as invariants for sources of any length; push/read/flush histories are bounded.')
prop('C22', 'Q7.8 and Q0.8 fixed-point conversions are exact and saturate at their limits',
     'Every Q7.8 and Q0.8 code converts to exactly its rational value and back to itself. Converting a real to fixed point succeeds exactly when it lies in the representable range (NaN and out-of-range values are refused without touching the output), and yields the documented rounding: the floor of the scaled value.',
     'every 16-bit and 8-bit code and every float, including NaN, infinities and denormals',
     'Tests sample a few values; the float domain has 2^32 elements.',
     [NU], [('Q7_8ToFloat / FloatToQ7_8 / Q0_8ToFloat / FloatToQ0_8', NU)], note='')
prop('C23', 'Integer to normalized-float sample conversion is exact and clipped',
     'Converting a 32-bit integer sample to a normalized floating-point sample divides by 2^31 exactly, and converting back recovers the integer; values at or beyond full scale clip to the extreme integers with the right sign. Not-a-number and infinities are refused and no conversion overflows or traps.',
     'every 32-bit integer and every double',
     'Tests sample boundary values only.',
     [NU, NUH], [('NormalizedFloatingPointToInt32 / Int32ToNormalizedFloatingPoint', NUH)], note='')
prop('C24', 'PCM bytes are assembled in the stated byte order and left-justified',
     'Little-endian and big-endian PCM byte groups of 1 to 4 bytes assemble to the 32-bit sample whose top bytes are the group in the stated order and whose remaining low bits are zero. Other group sizes are refused, and the input is never read beyond the group.',
     'every byte group of every length',
     'Tests use a few byte patterns.',
     [NU], [('LittleEndianBytesToInt32 / BigEndianBytesToInt32', NU)], note='')
prop('C25', 'Checked narrowing and addition never wrap silently',
     'Checked integer narrowing and checked 32-bit addition succeed exactly when the mathematical result is representable, and then deliver it; otherwise they fail and leave the output unchanged.',
     'every operand of every type pair in use',
     'Tests sample values near a few limits.',
     [NU, NUH], [('StaticCastIfInRange / StaticCastSpanIfInRange', NUH), ('AddUint32CheckOverflow', NU)], note='')
prop('C26', 'LPCM frames decode to the exact interleaved samples, or are refused',
     'An LPCM decoder exists exactly for the defined formats (big/little endian flag, 16/24/32 bits, the listed sample rates). A frame decodes exactly when its size is a whole number of ticks (bytes per sample times 1 or 2 channels) and it has no more ticks than configured; '
     'then sample (channel, tick) is the left-justified integer of its own bytes in the configured byte order, scaled to [-1, 1), and every channel has exactly the frame\'s ticks. What is decoded does not depend on earlier frames.',
     'every byte content, width, byte order, channel count, frame size and history of earlier frames',
     'Tests decode a few fixed frames; byte content, partial frames and reuse of one decoder across frames of different sizes are unbounded.',
     ['iamf/cli/codec/lpcm_decoder.cc', 'iamf/obu/substream_channel_count.cc'], [('LpcmDecoder::Create / DecodeAudioFrame', 'iamf/cli/codec/lpcm_decoder.cc'), ('SubstreamChannelCount::Create', 'iamf/obu/substream_channel_count.cc')], level='other',
     note='formats, configured limit and byte contents unrestricted; frames of up to 16 bytes, histories of two frames.')
prop('C27', 'Sample processors keep the push/flush protocol and expose only fresh output',
     'A processor receives a frame exactly when it has the configured number of channels, all of one length not above the configured maximum, and no flush happened before; any other push is refused and the derived processor is not called. '
     'Output of the latest accepted push or flush only is exposed, earlier output is discarded, a flush reaches the processor once, and everything after it is refused.',
     'every sequence of pushes and flushes with every frame shape and every outcome of the derived processor',
     'Tests run a few fixed call sequences.',
     ['iamf/cli/sample_processor_base.cc', 'iamf/cli/sample_processor_base.h'], [('SampleProcessorBase::PushFrame / Flush / GetOutputSamplesAsSpan', 'iamf/cli/sample_processor_base.cc')], over=('inputs', 'histories'), level='other',
     note='one arbitrary step from any state reached by a preceding step; up to 3 channels and 4 ticks.')
GA = 'iamf/cli/renderer/gains/'
prop('C31', 'Precomputed downmix gains are complete, well-shaped and decode exactly',
     'For every pair of layouts the gains lookup delivers a matrix exactly when the pair is in the published table; the matrix has one row per input channel and one column per output channel, and every gain equals the uncompressed published gain to within 1e-6. '
     'Dense data is taken row by row, sparse data places exactly its listed codebook gains and zeros elsewhere, inconsistent sparse data and unknown layouts are refused, and nothing is read out of bounds.',
     'every layout pair, every gain of every matrix, every dense value and every (also corrupt) sparse blob',
     'Tests look up a few pairs; 243 matrices with 25,805 gains, and corrupt blobs, are not covered.',
     [GA + 'get_gains.cc', GA + 'precomputed_compressed_gains.cc', GA + 'precomputed_compressed_gains_decoder.cc', GA + 'precomputed_gains.cc'],
     [('GetGainsForLayoutPair', GA + 'get_gains.cc'), ('DecompressMatrix', GA + 'precomputed_compressed_gains_decoder.cc'), ('kGainsTable', GA + 'precomputed_compressed_gains.cc')],
     note='all pairs and gains; sparse blobs of up to 8 bytes for the rejection contract.')

prop('C37', 'Probe JSON is well formed and every key carries its report field',
     'For every probe report with finite numbers, ProbeReportToJson produces exactly one well-formed JSON value (RFC 8259): every present field of the report appears exactly once under its own key path with its own value, absent optional fields do not appear, empty lists are empty arrays, flags are true/false, and strings are escaped so that they decode back to themselves with no raw control character, quote or backslash.',
     'all values of every numeric field; strings with characters that need escaping; every single byte as string content',
     'The one printing function has several hundred field positions and optional parts; a swapped field, missing comma or unescaped byte shows only for the report shape that reaches it, and no test parses the text.',
     ['iamf/cli/probe_json.cc', 'iamf/cli/probe.h'],
     [('ProbeReportToJson and the per-section printers: braces, commas, key/value pairing', 'iamf/cli/probe_json.cc'), ('EscapeJson: control characters, quote, backslash', 'iamf/cli/probe_json.cc:EscapeJson')],
     level='other', note='Numbers are fully symbolic; presence of optional parts follows four patterns with lists of up to two entries. The decimal rendering inside absl::StrCat is a trusted contract (opaque number token).')
B64 = 'iamf/cli/adm_to_user_metadata/adm/bw64_reader.cc'
prop('C38', 'BW64 files are indexed exactly and illegal fmt, axml or Dolby data is refused',
     'A source is indexed only if it starts with RIFF....WAVE. Every chunk is indexed by name with its declared size and position, honouring the padding of odd sizes, and the last of several equal names wins; a chunk reaching past the end of the file ends the index. '
     'The fmt chunk is accepted exactly when complete, with at least one channel, a non-zero rate and 16, 24 or 32 bits, and every field is the file\'s. The axml text handed to the ADM parser is exactly the chunk\'s bytes; a size above 256 MiB or beyond the file is refused without reading. '
     'A dbmd chunk makes the file Dolby, which requires 24 bits at 48 or 96 kHz; the parser gets the importance threshold and file type and its error is returned.',
     'every header, chunk order, declared size, truncation point and fmt content',
     'Tests use a few hand-made files; corrupt sizes, odd padding, duplicates and truncations combine freely.',
     [B64, B64[:-2] + 'h'], [('ReadRiffChunk / CreateChunksOffsetMap / ReadFmtChunk / ReadAxml', B64), ('Bw64Reader::BuildFromStream', B64)], over=('inputs',), level='other',
     note='Chunk contents are unrestricted; shapes (up to 3 chunks, sizes 0..5 and past the end) are enumerated. std::istream is replaced by its contract; the XML parser by a recording contract.')
