"""Harnesses, required situations and bounds per property."""
QUIET = ['c01_c02_unary', 'c01_c03_pieces', 'c01_c03_boundary', 'c01_c03_far', 'c01_c03_liar', 'c01_c04_codes', 'c01_c04_blocksize', 'c01_c05_number', 'c01_c05_malformed', 'c01_c05_many', 'c01_c06_second', 'c01_c07_wasted', 'c01_c07_header', 'c01_c07_frame', 'c01_c07_long', 'c01_c08_fixed', 'c01_c08_too_short', 'c01_c08_long', 'c01_c09_params', 'c01_c09_invalid', 'c01_c09_long', 'c01_c10_params', 'c01_c10_partitions', 'c01_c10_large', 'c01_c10_refused', 'c01_c10_quotients', 'c01_c11_values', 'c01_c11_long', 'c01_c12_buffer', 'c01_c12_long', 'c01_c12_follow', 'c01_c13_long', 'c01_c13_hint', 'c01_c14_error', 'c01_c14_resume', 'c01_c14_long', 'c01_c14_many', 'c01_c14_hint', 'c01_c15_truncated', 'c01_c16_structured', 'c01_c16_utf8', 'c01_c16_long', 'c01_c16_many', 'c01_c16_free', 'c01_c16_wide', 'c01_c17_failures', 'c01_c17_large', 'c01_c17_many', 'c01_c18_samples', 'c01_c19_prefix', 'c01_c19_inner', 'c01_c20_prefix', 'c01_c20_samples', 'c01_c20_subframe', 'c01_c20_trailing', 'c01_c21_case', 'c01_c21_pairs', 'c01_c21_long', 'c01_c21_free', 'c01_c22_long', 'c01_c23_boundary', 'c01_c23_layout', 'c01_c23_meta', 'c01_c24_shown', 'c01_c24_text']
SPEC = {
 "C01": dict(harnesses=['c01_subframe', 'c01_frame', 'c01_header', 'c01_meta', 'c01_stream', 'c01_lpc', 'c01_fixed', 'c01_stereo', 'c01_reader'] + QUIET,
   reach={'c01_subframe': ['eof', 'fmt', 'ok', 'uns'], 'c01_frame': ['eof', 'fmt', 'uns'], 'c01_header': ['eof', 'fmt', 'uns'], 'c01_meta': ['eof', 'fmt', 'ok', 'uns'], 'c01_stream': ['bad sample', 'eof', 'fmt', 'ok', 'uns'], 'c01_lpc': ['ok'], 'c01_fixed': ['ok'], 'c01_stereo': ['ok'], 'c01_reader': ['application', 'err']},
   bounds='arbitrary bytes: one subframe of up to 3 (thorough 5) free bytes at bit offsets 0 and 3, block sizes 0,1,2,4 and widths 1,4,17,25,32; 3 (5) free bytes behind frame headers of 5 channel assignments; 4-6 (8) free bytes as frame header; 11 (14) free bytes of metadata, any 8-bit type and 32-bit length; 0-7 free bytes behind marker/streaminfo under all options; predictors of selected (all) orders with free 8/32-bit warm-up, coefficients, residuals; stereo with free 8/24-bit channels of 4 (9) samples; misbehaving byte readers for application and comment blocks; besides, all inputs of %d harnesses of other properties, within the bounds given there' % len(QUIET)),
 "C02": dict(harnesses=['c02_mixed', 'c02_unary', 'c02_eof', 'c02_three'],
   reach={'c02_mixed': ['done', 'eof'], 'c02_unary': ['done'], 'c02_eof': ['done', 'eof'], 'c02_three': ['done']},
   bounds='12 (14) free bytes; every bit offset 0-7; two reads of every kind and every width 0-32, or a unary read; inputs of 0-5 bytes with reads running over the end; three (four) reads from a menu of eight; unary codes of 0..1000 zero bits (28 lengths) at every bit offset, of up to 131072 zero bits (11 lengths) at two (every) bit offsets'),
 "C03": dict(harnesses=['c03_cursor', 'c03_cursor_far', 'c03_cursor_long', 'c03_pieces', 'c03_boundary', 'c03_long', 'c03_faults', 'c03_liar', 'c03_far'],
   reach={'c03_cursor': ['done', 'eof'], 'c03_cursor_far': ['done'], 'c03_cursor_long': ['done', 'eof'], 'c03_pieces': ['done', 'eof'], 'c03_boundary': ['done'], 'c03_long': ['done', 'eof'], 'c03_faults': ['done', 'eof', 'fault', 'resumed'], 'c03_liar': ['liar'], 'c03_far': ['far']},
   bounds='in-memory: 0-7 free bytes, 3 operations out of 9 kinds, any 64-bit position; 65535 to 200000 bytes with every operation at 11 positions; buffered: 0-6 (0-7) free bytes delivered in every split of pieces up to 3 bytes, 2 (3) operations; operations straddling 2048/4096-byte boundaries with free bytes around; skips and block reads up to 9000 bytes in pieces; one fault at call 0-3, kinds Other and Interrupted; sources that return more than they were asked for; skips of up to 2^24-1 and block reads of up to 131071 bytes, in pieces of 1000 to 4096 bytes'),
 "C04": dict(harnesses=['c04_sync', 'c04_codes', 'c04_blocksize', 'c04_fields'],
   reach={'c04_sync': ['bad', 'good'], 'c04_codes': ['legal', 'no width', 'reserved'], 'c04_blocksize': ['decoded', 'too large'], 'c04_fields': ['decoded']},
   bounds='both sync bytes free; both code bytes free (all 65536 combinations, all trailing fields free); every block size code, every 8-bit size and 14 (174) 16-bit sizes; 11 channel assignments x 5 widths x 15 sample rate codes x both blocking strategies with free sample values'),
 "C05": dict(harnesses=['c05_number', 'c05_malformed', 'c05_stream', 'c05_many'],
   reach={'c05_number': ['frame', 'sample', 'too large'], 'c05_malformed': ['continuation', 'first'], 'c05_stream': ['first', 'frame', 'sample'], 'c05_many': ['many']},
   bounds='every coded number of 1-7 bytes with all value bits free (36 bits), both blocking strategies, block sizes 1,16,192,257 and declared sizes 16,192,4096,65535; every malformed first byte and every malformed byte at each continuation position; runs of 16, 300 and 66000 frames across the lengths of the coded number'),
 "C06": dict(harnesses=['c06_header', 'c06_frame', 'c06_burst', 'c06_second', 'c06_long'],
   reach={'c06_header': ['match', 'mismatch'], 'c06_frame': ['match', 'mismatch'], 'c06_burst': ['burst'], 'c06_second': ['match', 'mismatch'], 'c06_long': ['match', 'mismatch']},
   bounds='headers with free number of 1-7 bytes, free trailing fields and free CRC-8; frames of five shapes up to 246 (456) bytes with free payload and free CRC-16, bursts of up to 16 bits with free pattern at every byte position of the sample data and of the checksum of three shapes; a third frame after two others; frames of 4 to 131 (524) KB with a free last byte and free CRC-16'),
 "C07": dict(harnesses=['c07_constant', 'c07_verbatim', 'c07_wasted', 'c07_header', 'c07_frame', 'c07_long', 'c07_extend'],
   reach={'c07_constant': ['constant'], 'c07_verbatim': ['verbatim'], 'c07_wasted': ['refused'], 'c07_header': ['plain', 'reserved'], 'c07_frame': ['frame'], 'c07_long': ['constant', 'verbatim'], 'c07_extend': ['extend']},
   bounds='every width 1-32 with every number of wasted bits; constant blocks of 1,2,9 and verbatim blocks of 1,2,3,10 free samples at one (every) bit offset; all 256 subframe header bytes with 0-160 zero bytes and then ones behind them, block sizes 0,1,7,33,40; whole frames of 16 and 33 samples with every number of wasted bits for 5 widths; blocks of 256, 1153, 4096, 4097, 4608, 4609, 8195, 16385, 32769 and 65535 samples with free samples at selected positions; sign extension of every width and value'),
 "C08": dict(harnesses=['c08_fixed', 'c08_too_short', 'c08_long'],
   reach={'c08_fixed': ['fixed'], 'c08_too_short': ['refused'], 'c08_long': ['long']},
   bounds='orders 0-4, widths 4,8,16,17,24,25,32, wasted bits 0,1,3, 0-12 samples behind the warm-up, all sample and remainder bits free, five quotient/parameter patterns; orders exceeding the block; blocks of 256, 1153, 4096, 4097, 4608, 4609, 8195, 16385, 32769 and 65535 samples with free residuals at the end'),
 "C09": dict(harnesses=['c09_extreme', 'c09_orders', 'c09_coefs', 'c09_free', 'c09_params', 'c09_wide', 'c09_invalid', 'c09_long'],
   reach={'c09_extreme': ['extreme'], 'c09_orders': ['orders'], 'c09_coefs': ['coefs'], 'c09_free': ['free'], 'c09_params': ['params'], 'c09_wide': ['wide'], 'c09_invalid': ['precision', 'shift'], 'c09_long': ['long']},
   bounds='orders 1-32; free 16/24-bit warm-up with known coefficients up to 14 samples; free coefficients with known warm-up; both free for orders 1,2,3,12,13,32 up to 3 samples; sums at their limits: coefficients at both ends of their range in three patterns against samples of one free magnitude, and the reverse, for nine orders; all 15 precisions x 16 shifts; widths 8-32; every invalid precision and negative shift; blocks of 256, 1153, 4096, 4097, 4608, 4609, 8195, 16385, 32769 and 65535 samples for orders 1,2,8,12,13,32 with free residuals at the end'),
 "C10": dict(harnesses=['c10_params', 'c10_partitions', 'c10_large', 'c10_refused', 'c10_quotients'],
   reach={'c10_params': ['params'], 'c10_partitions': ['partitions', 'refused'], 'c10_large': ['large', 'refused'], 'c10_refused': ['escape', 'method', 'misfit', 'other'], 'c10_quotients': ['quotients']},
   bounds='every parameter of both methods (0-14, 0-30), quotients 0-127, free remainders; partition orders 0-4 x predictor orders 0-4 x 1,2,4,5 samples per partition, a parameter of its own in each partition; partition orders 5,8,11,15 with up to 65535 samples; reserved methods, escape codes, all 16 partition orders on six block sizes; quotients of 1000 to 2^23 zero bits, folded residuals up to 2^32-1 with parameters 8 to 14'),
 "C11": dict(harnesses=['c11_lossless', 'c11_values', 'c11_long'],
   reach={'c11_lossless': ['stereo'], 'c11_values': ['stereo'], 'c11_long': ['stereo']},
   bounds='three stereo modes, widths 8,12,16,20,24, up to 17 (40) free sample pairs; arbitrary coded values incl. wasted bits, 8/16/24 bits, up to 9 pairs; blocks of 256, 1153, 4096, 4097, 4608, 4609, 8195, 16385, 32769 and 65535 samples with extreme known values and free ones at the end'),
 "C12": dict(harnesses=['c12_layout', 'c12_buffer', 'c12_sequence', 'c12_long', 'c12_follow'],
   reach={'c12_layout': ['layout', 'padded'], 'c12_buffer': ['buffer'], 'c12_sequence': ['sequence'], 'c12_long': ['long'], 'c12_follow': ['bad', 'good']},
   bounds='1-8 independent channels, 5 widths, 1-7 free samples each, free padding bits; recycled buffers of every length 0..n+2, four capacities and free contents; sequences of 3 (4) frames of changing shape; 1-8 constant channels of 4096 to 65535 samples; a frame of six kinds, damaged ones among them, and the frame behind it'),
 "C13": dict(harnesses=['c13_access', 'c13_index', 'c13_stereo', 'c13_panics', 'c13_empty', 'c13_long', 'c13_hint', 'c13_adapt'],
   reach={'c13_access': ['access'], 'c13_index': ['index'], 'c13_stereo': ['stereo'], 'c13_empty': ['empty'], 'c13_long': ['long'], 'c13_hint': ['hint'], 'c13_adapt': ['adapt']},
   bounds='11 channel assignments, blocks of 1-7 free samples, recycled buffers; free 32-bit channel and sample indices; blocks of 4097, 4609, 32768, 65535 samples, every position; announced numbers of pairs; every way of driving the iterators (jumping, stepping, skipping, taking, peeking, counting, folding, last) from the first or second item'),
 "C14": dict(harnesses=['c14_order', 'c14_error', 'c14_resume', 'c14_coded', 'c14_long', 'c14_many', 'c14_hint', 'c14_adapt'],
   reach={'c14_order': ['order'], 'c14_error': ['end', 'fault', 'format', 'unsupported'], 'c14_resume': ['resume'], 'c14_coded': ['coded'], 'c14_long': ['long'], 'c14_many': ['many'], 'c14_hint': ['hint'], 'c14_adapt': ['adapt']},
   bounds='0-3 (0-4) frames out of six shapes with free samples; ten kinds of damage, unsupported coding or source failure in frame 0-2 incl. every truncation and every wrong checksum byte; iteration restarted after every number of samples; predicted and decorrelated frames; sequences of long and short blocks up to 65535 samples; 127, 257 and 66000 blocks of one sample; announced numbers of samples with a free number of samples in streaminfo; every way of driving the iterators (jumping, stepping, skipping, taking, peeking, counting, folding, last) from the first or second item'),
 "C15": dict(harnesses=['c15_fields', 'c15_length', 'c15_truncated'],
   reach={'c15_fields': ['accepted', 'opened', 'refused'], 'c15_length': ['length'], 'c15_truncated': ['truncated']},
   bounds='all 34 bytes free, through three entry points; every other 24/32-bit length; every truncation'),
 "C16": dict(harnesses=['c16_arbitrary', 'c16_structured', 'c16_utf8', 'c16_names', 'c16_lengths', 'c16_long', 'c16_many', 'c16_free', 'c16_wide'],
   reach={'c16_arbitrary': ['accepted', 'refused'], 'c16_structured': ['accepted', 'refused'], 'c16_utf8': ['accepted', 'refused'], 'c16_names': ['accepted', 'refused'], 'c16_lengths': ['comment', 'count', 'vendor'], 'c16_long': ['long'], 'c16_many': ['many'], 'c16_free': ['free'], 'c16_wide': ['accepted', 'refused']},
   bounds='0-14 (0-16) arbitrary bytes against an independent parser; up to 3 comments of up to 3 free bytes with wrong counts and lengths and trailing bytes; 1-4 free bytes of text in vendor string and values; names of 5 (6) free bytes; every 32-bit length that does not fit; vendor strings, values and names of 254 to 70001 bytes with a free byte; 255 to 70000 comments; names of 6 to 22 (40), values of up to 24 (64) and vendor strings of up to 33 bytes, all free, alone or repeated; text of up to 130 (257) characters of 2, 3 or 4 bytes at every alignment, whole, cut or broken, in vendor string, value and name'),
 "C17": dict(harnesses=['c17_types', 'c17_skip', 'c17_application', 'c17_iterate', 'c17_failures', 'c17_large', 'c17_many', 'c17_adapt'],
   reach={'c17_types': ['application', 'comment', 'invalid', 'padding', 'reserved', 'streaminfo'], 'c17_skip': ['other', 'padding'], 'c17_application': ['long', 'short'], 'c17_iterate': ['failure', 'last'], 'c17_failures': ['end', 'fault', 'format', 'unsupported'], 'c17_large': ['application', 'refused', 'skipped'], 'c17_many': ['many'], 'c17_adapt': ['adapt']},
   bounds='every 7-bit type and last flag, bodies of 0-5 free bytes; every 24-bit length for skipped blocks; every unacceptable length of application blocks; 1-3 (1-4) blocks of six kinds, last flag anywhere or missing; 0-2 good blocks, then eleven kinds of failure incl. truncation and faults at every byte of five kinds of block, then good blocks again; application blocks of 255 bytes to 10 MiB and one more, skipped blocks up to 2^24-1 bytes; 127 to 65538 blocks; every way of driving the iterators (jumping, stepping, skipping, taking, peeking, counting, folding, last) from the first or second item'),
 "C18": dict(harnesses=['c18_announced', 'c18_open', 'c18_comment', 'c18_frame', 'c18_reuse', 'c18_samples'],
   reach={'c18_announced': ['big', 'other'], 'c18_open': ['big', 'not read', 'small'], 'c18_comment': ['comment'], 'c18_frame': ['frame'], 'c18_reuse': ['reuse'], 'c18_samples': ['samples']},
   bounds='every type and 24-bit length with at most 17 bytes of data; every 32-bit length and count inside comment blocks; opening under all options; every frame header of both code bytes with 0-1 bytes behind; a recycled buffer over 3 (5) frames; iteration over the samples of 3 and 20 frames of four shapes'),
 "C19": dict(harnesses=['c19_marker', 'c19_options', 'c19_lazy', 'c19_default', 'c19_open', 'c19_missing', 'c19_inner', 'c19_prefix'],
   reach={'c19_marker': ['marker', 'other'], 'c19_options': ['audio', 'metadata only', 'refused'], 'c19_lazy': ['lazy'], 'c19_default': ['default'], 'c19_open': ['opened', 'refused'], 'c19_missing': ['directory', 'missing'], 'c19_inner': ['inner'], 'c19_prefix': ['prefix']},
   bounds='all four marker bytes; 1-3 (1-4) metadata blocks of five kinds under all four option settings; requests for audio in metadata-only mode; truncated or arbitrary data behind the wanted metadata; files with free bytes, whole, cut or damaged, through open and open_ext; paths that do not exist or are a directory; 1 to 16 free bytes and up to 10 zero bytes before the marker'),
 "C20": dict(harnesses=['c20_prefix', 'c20_samples', 'c20_fault', 'c20_subframe', 'c20_trailing', 'c20_deep'],
   reach={'c20_prefix': ['clean', 'frame', 'metadata'], 'c20_samples': ['clean', 'error'], 'c20_fault': ['frame', 'metadata'], 'c20_subframe': ['cut', 'whole'], 'c20_trailing': ['trailing'], 'c20_deep': ['clean', 'error']},
   bounds='a stream of four metadata blocks (five orders, any kind last) and two frames with free contents, cut or failing at every byte, 16 error kinds, three delivery sizes; frames with predicted subframes cut at every byte; 0-2 frames with 1 to 9 free bytes behind them, then up to 3000 bytes and another frame; the end or a failure of the source behind 15 to 129 frames, at every byte around frame boundaries and the internal buffer'),
 "C21": dict(harnesses=['c21_lookup', 'c21_case', 'c21_pairs', 'c21_stream', 'c21_hint', 'c21_long', 'c21_free', 'c21_adapt'],
   reach={'c21_lookup': ['lookup', 'match'], 'c21_case': ['match', 'other'], 'c21_pairs': ['pairs'], 'c21_stream': ['stream'], 'c21_hint': ['hint'], 'c21_long': ['match', 'other'], 'c21_free': ['match', 'other'], 'c21_adapt': ['adapt']},
   bounds='0-3 (0-4) comments with free names of 1-2 bytes and free values, needles of 0-2 free bytes; names of 6 and 11 letters in every combination of case, needles with a free byte or a non-ASCII letter at every position, with letters of two and three bytes (listed look-alikes and free ones) in place of ASCII letters; pairs with separators in values; names and needles of 0 to 301 and of 65537 bytes with a free byte each; names and needles of 4 to 23 free bytes; every way of driving the iterators (jumping, stepping, skipping, taking, peeking, counting, folding, last) from the first or second item'),
 "C22": dict(harnesses=['c22_modes', 'c22_mixed', 'c22_predictors', 'c22_long'],
   reach={'c22_modes': ['stream'], 'c22_mixed': ['stream'], 'c22_predictors': ['fixed', 'linear'], 'c22_long': ['stream']},
   bounds='two frames in every combination of 6 channel assignments x 6x6 subframe codings x 3 widths x 2 block sizes with free samples, remainders and 6-bit coefficients; 3 (4) frames of four shapes behind three kinds of metadata, both blocking strategies, three ways of reading; all 37 predictors with free residuals on blocks of 13 (28) lengths from the order upwards; long blocks of 192 to 20000 samples with free samples at selected positions'),
 "C23": dict(harnesses=['c23_pieces', 'c23_boundary', 'c23_options', 'c23_layout', 'c23_meta', 'c23_apart'],
   reach={'c23_pieces': ['pieces'], 'c23_boundary': ['boundary'], 'c23_options': ['options'], 'c23_layout': ['layout'], 'c23_meta': ['meta'], 'c23_apart': ['apart']},
   bounds='whole streams of metadata and two frames handed out one byte at a time, cut at every position, in pieces of every size 2-16, in 13 irregular patterns; streams with the end of the 2048-byte internal buffer at 8 (64) positions around the first frame; with comment reading on and off; the comment block at every position among up to 2 (3) other blocks of 9 kinds with free contents; vendor strings, names and values of up to 5000 bytes behind or before 4100 bytes of padding in pieces of 13 sizes; three ways of reading; two readers used in turn over streams of two frames of four shapes, whole or damaged'),
 "C24": dict(harnesses=['c24_equal', 'c24_shown', 'c24_source', 'c24_text'],
   reach={'c24_equal': ['different', 'equal'], 'c24_shown': ['format', 'kind', 'source', 'unsupported'], 'c24_source': ['audio', 'metadata'], 'c24_text': ['other', 'text']},
   bounds='pairs of errors of four kinds with free reasons of 0-2 bytes; shown reasons of 1-3 free bytes; a source that fails at every byte of a stream with every 31-bit code, seven kinds, free payloads of 2 bytes; every 2 bytes of text'),
}
