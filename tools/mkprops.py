#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state], 'observe_at': list(observe), 'hook_needed': None}})


p('P01', 'Bit packing is a canonical, lossless layout for every symbol count',
  'For every supported number of bits per symbol b and any number of symbols n, packing stores symbol i in bits i*b to (i+1)*b-1 of the byte stream, least significant bit first, without disturbing any other symbol. '
  'Unpacking extracts exactly those bits, so packing followed by unpacking returns the original symbols.',
  ['inputs'], 'all eight bit counts, every symbol count, every symbol value below 2^b',
  'The tests pack a handful of short vectors; the code has a separate tail case for every remainder of n per bit count.',
  ['bytepacker.h'], [('pack2..pack16, unpack2..unpack16', 'bytepacker.h')], ['bytes of the packed block', 'symbols after unpacking'])
p('P02', 'Packing and unpacking stay within their buffers for every symbol count',
  'Packing n symbols of b bits reads exactly the n symbols and writes exactly ceil(n*b/8) bytes; unpacking reads only those bytes and writes exactly n symbols. '
  'The advertised buffer size for n symbols is exactly ceil(n*b/8) bytes.',
  ['inputs'], 'all eight bit counts and every symbol count',
  'An access one byte past a buffer is silent in the tests and depends on the remainder of n.',
  ['bytepacker.h'], [('tail handling of the pack and unpack functions', 'bytepacker.h'), ('bufferSize()', 'bytepacker.h')], ['memory extents'])
p('P03', 'A bit rate is supported in both directions or refused up front',
  'The bit counts 2, 3, 4, 6, 8, 10, 12 and 16 can be packed and unpacked. '
  'Any other bit count is refused with an exception, at the latest when the data or weight column is prepared and hence before any value is accepted.',
  ['configurations', 'inputs'], 'every bit count from 1 to 256 for the data column and for the weight column',
  'Tests configure only a few supported bit counts; an unsupported one is first noticed in an encoding thread.',
  ['bytepacker.h', 'threadeddyscocolumn.cc', 'dyscostman.cc'], [('dispatch on the bit count', 'BytePacker::pack, unpack, isSupported'), ('validation', 'ThreadedDyscoColumn::SetBitsPerSymbol')], ['exception from table creation'])
p('P04', 'The file header is written and read with one and the same layout',
  'Every value that is written to the file header or to a column header is read back from the same position, with the same width, into the same meaning. '
  'The column headers start at the offset recorded in the file, each is as long as recorded, and all lie before the recorded header size, for every manager name and every number of columns.',
  ['inputs', 'configurations'], 'all header field values, name lengths and column counts',
  'Writer and reader are separate functions; a swapped pair of equally wide fields or a wrong constant shows only for particular values.',
  ['header.h', 'serializable.h', 'dyscostman.cc', 'threadeddyscocolumn.h', 'threadeddyscocolumn.cc'],
  [('Header::Serialize/Unserialize', 'header.h'), ('GenericColumnHeader', 'header.h'), ('ThreadedDyscoColumn::Header', 'threadeddyscocolumn.h'), ('calculateColumnHeaderOffset, ExtraHeaderSize', 'header.h, threadeddyscocolumn.h')], ['bytes of the header', 'settings after reopening'])
p('P05', 'Reopening a table restores the settings it was written with',
  'When an existing table is opened, the bit counts, distribution, normalization, Student-t parameter, truncation, rows per block, antenna count, block size and header size that were in effect when the header was written are all restored and used, for the table and for each of its columns. '
  'No setting is replaced by a default, another setting or a narrowed value.',
  ['configurations', 'histories'], 'every combination of settings',
  'Tests reopen tables with one or two configurations; two settings that happen to be equal hide an exchange.',
  ['dyscostman.cc', 'header.h', 'threadeddyscocolumn.cc'], [('writeHeader/readHeader', 'dyscostman.cc'), ('UnserializeExtraHeader', 'threadeddyscocolumn.cc')], ['values decoded after reopening'])
p('P06', 'Specification, clone and copy reproduce the compression settings',
  'A manager constructed from the specification record of another manager, or cloned from it, has the same bit counts, distribution, normalization, Student-t parameter and truncation, for every distribution and normalization. '
  'Unknown names or zero bit counts in a specification are refused.',
  ['configurations'], 'every distribution, normalization and parameter value',
  'Tests use one distribution; each name is spelled separately in the writing and the reading code.',
  ['dyscostman.cc', 'dyscostman.h'], [('dataManagerSpec/setFromSpec', 'dyscostman.cc'), ('copy constructor, clone()', 'dyscostman.cc')], ['spec record'])
p('P07', 'Files that can not be interpreted are refused when opened',
  'Opening fails with an exception when the header can not be read completely, when the file format version differs from the version this library writes, or when the number of columns in the file differs from the number of columns of the table. '
  'This happens before any block is read or written.',
  ['inputs'], 'every header content, including truncated files and all version numbers',
  'Tests only open files that the same library wrote.',
  ['dyscostman.cc'], [('readHeader()', 'dyscostman.cc')], ['exception from opening'])
p('P08', 'Every block of every column has its own fixed range in the file',
  'Block k of a column is written to and read from position headerSize + k*blockSize + columnOffset, where the columns of a block are laid out consecutively without overlap and the size written is the size reserved. '
  'Each row belongs to block row / rowsPerBlock at position row % rowsPerBlock, and a stored block is always counted as present, also after reopening.',
  ['inputs', 'configurations', 'histories'], 'all rows, block indices, column combinations, and sizes',
  'Tests have few blocks and at most two columns, so overlapping ranges or off-by-one positions need specific sizes to show.',
  ['dyscostman.cc', 'dyscostman.h', 'threadeddyscocolumn.cc'],
  [('getFileOffset, getBlockIndex, getRowWithinBlock, getRowIndex', 'dyscostman.h'), ('initializeRowsPerBlock', 'dyscostman.cc'), ('encodeAndWrite, CalculateBlockSize', 'threadeddyscocolumn.cc')], ['file contents'])
p('P09', 'Failed file operations are reported',
  'Creating, opening, reading the header, writing the header, reading a block and writing a block each end with an exception when the underlying file operation failed. '
  'The one tolerated failure is a short read of the last block, after which the missing part reads as zeros and the file stays usable.',
  ['fault_sequences'], 'a failure of any single file operation',
  'Tests never inject I/O failures.',
  ['dyscostman.cc'], [('checks of the stream state', 'dyscostman.cc')], ['exceptions'])
p('P10', 'Shared state is only accessed with its lock held',
  'While encoding threads may run, the write cache and stop request of a column are only accessed with the lock of that column held, and the file stream and block count of the manager only with the lock of the manager held. '
  'This holds on every path, including error paths and those of the encoding threads.',
  ['schedules'], 'all interleavings of the user thread and the encoding threads',
  'A data race rarely shows in a test run and the tests do not run under a race detector.',
  ['threadeddyscocolumn.cc', 'dyscostman.cc', 'dyscostman.h'], [('_mutex of the column and of the manager', 'threadeddyscocolumn.h, dyscostman.h')], ['memory accesses'])
p('P11', 'Threads can not deadlock on the internal locks',
  'The locks of the columns and the manager are always acquired in one order, never twice by one thread, and released on every exit. '
  'No thread waits for a condition or for the end of other threads while it holds a lock that those threads need.',
  ['schedules'], 'all interleavings, all call paths including virtual calls and exceptions',
  'A deadlock needs a particular interleaving.',
  ['threadeddyscocolumn.cc', 'dyscostman.cc', 'threadgroup.h'], [('lock scopes', 'threadeddyscocolumn.cc, dyscostman.cc'), ('stopThreads', 'threadeddyscocolumn.cc')], ['progress'])
p('P12', 'No wake-up between writers, readers and encoding threads is lost',
  'Every wait re-checks its condition in a loop under the same lock. '
  'Every change that can make a waited-for condition true (a block added to or removed from the write cache, the request to stop) is followed by a wake-up of all waiters it may concern before the changing thread itself waits or continues indefinitely.',
  ['schedules'], 'all interleavings and spurious wake-ups',
  'A lost wake-up needs a particular interleaving and shows as a hang.',
  ['threadeddyscocolumn.cc'], [('_cacheChangedCondition', 'threadeddyscocolumn.cc')], ['progress'])
p('P13', 'Every stored block is written exactly once before the threads end',
  'A block that was handed to the encoding threads is picked up by exactly one thread, is completely encoded and written before it is removed from the write cache, and is released exactly once. '
  'Threads end only when no block is left; flushing, reconfiguring and destruction wait for that, and a changed block that was not yet handed over is handed over first on destruction.',
  ['schedules', 'histories'], 'all interleavings of encoding threads, reads, writes and shutdown',
  'Losing or writing a block twice depends on timing and on the moment of shutdown.',
  ['threadeddyscocolumn.cc', 'dyscodatacolumn.h', 'dyscoweightcolumn.h', 'dyscostman.cc'], [('EncodingThreadFunctor, stopThreads, shutdown', 'threadeddyscocolumn.cc')], ['file contents after closing'])
p('P14', 'Opening and reading a table never modifies its file',
  'A history that only opens a table, reads values and closes it performs no write to the file and schedules no block for writing; opening never truncates the file. '
  'Files that can only be opened for reading can be read.',
  ['histories'], 'all read-only histories',
  'Tests compare a few values after reading, not the absence of writes in every history.',
  ['dyscostman.cc', 'threadeddyscocolumn.cc'], [('open()', 'dyscostman.cc'), ('_isCurrentBlockChanged', 'threadeddyscocolumn.cc')], ['file contents'])
p('P15', 'Encoder and decoder agree on the place of every symbol and scale factor',
  'For every normalization, and for weights, each symbol and each metadata value that decoding of a sample uses was written by encoding at the same index for the same row, channel, polarization and antenna, distinct samples use distinct symbols, and all indices lie below the advertised symbol and metadata counts. '
  'This holds for all numbers of rows, channels, polarizations and antennas.',
  ['inputs', 'configurations'], 'all block dimensions',
  'Tests use a few dimensions; index formulas with exchanged dimensions coincide for special sizes.',
  ['aftimeblockencoder.cc', 'aftimeblockencoder.h', 'rftimeblockencoder.cc', 'rftimeblockencoder.h', 'rowtimeblockencoder.cc', 'rowtimeblockencoder.h', 'weightblockencoder.h'],
  [('encode / Decode / InitializeDecode / MetaDataCount / SymbolCount', 'the encoder classes')], ['decoded samples'])
p('P16', 'Every factor applied while encoding is undone when decoding',
  'Each scale factor that encoding divides the data by (per antenna, channel, row or polarization) is recorded in the metadata, updated in step with the data whenever it is refined, and multiplied back by decoding exactly once. '
  'Decoding uses the factors of the sample itself and no others.',
  ['inputs'], 'all data values and block dimensions',
  'Tests compare within a tolerance on simple data, where a factor of one is easily missed.',
  ['aftimeblockencoder.cc', 'rftimeblockencoder.cc', 'rowtimeblockencoder.cc'], [('normalization loops', 'the encoder classes')], ['decoded samples'])
p('P17', 'Non-finite samples stay non-finite and do not affect other samples',
  'A sample that is NaN or infinite is stored as the reserved symbol and decodes as a non-finite sample. '
  'It does not enter any scale factor, maximum or average that is applied to other samples, these stay finite wherever finite samples use them, and a finite sample never decodes through the reserved symbol.',
  ['inputs'], 'all placements of NaN and infinities',
  'Tests place a few NaNs; the guard is repeated at many places.',
  ['aftimeblockencoder.cc', 'rftimeblockencoder.cc', 'rowtimeblockencoder.cc', 'stochasticencoder.h', 'timeblockencoder.h'], [('isfinite guards', 'the encoder classes')], ['decoded samples'])
p('P18', 'The quantization tables are complete and consistently indexed',
  'For every distribution and bit count, the decoding table has one finite quantity for each of the 2^b-1 symbols, increasing and symmetric about zero, plus the reserved non-finite one, and the decision boundaries used for encoding lie between neighbouring quantities at matching positions. '
  'The last boundary accepts every larger value. The random number used for dithering covers the whole interval between two quantities, and every component draws its own.',
  ['configurations', 'inputs'], 'all distributions and bit counts',
  'Tests check a few encoded values of one or two tables.',
  ['stochasticencoder.h', 'stochasticencoder.cc', 'dictionary.h'], [('table initialisation', 'stochasticencoder.cc'), ('Dictionary', 'dictionary.h')], ['encoded symbols'])
p('P19', 'Encoding selects the right entry of the table for every value',
  'For every table size and every finite value, the dictionary search returns the first entry that is not smaller than the value (or the end). '
  'Encoding without dithering selects the quantity whose interval contains the value; encoding with dithering selects one of the two quantities that enclose the value, with values beyond the table clipped to the outermost quantity.',
  ['inputs'], 'all values including exact hits and values outside the table, all table sizes',
  'The hand-written search has special cases for sizes and positions; tests sample a few.',
  ['dictionary.h', 'stochasticencoder.h'], [('Dictionary::lower_bound', 'dictionary.h'), ('Encode, EncodeWithDithering', 'stochasticencoder.h')], ['encoded symbols'])
p('P20', 'Encoding and decoding use the algorithm and tables of the settings',
  'For every normalization and distribution setting, the encoder of the threads, the decoder and the size calculations are those of that normalization, and the quantization table is that of the distribution, with 2^b entries for bit count b and with the parameters of the table. '
  'The data bit count configures data columns and the weight bit count configures weight columns.',
  ['configurations'], 'all normalizations, distributions and bit counts',
  'Tests run a few of the combinations; an exchange between two that behave alike is not visible.',
  ['dyscodatacolumn.cc', 'dyscoweightcolumn.cc', 'dyscostman.cc'], [('Prepare, initializeEncodeThread', 'dyscodatacolumn.cc'), ('prepare()', 'dyscostman.cc')], ['decoded samples'])
p('P21', 'A static seed makes the output reproducible',
  'When a static seed is requested before columns are made, no data column draws from a random device for its encoding and only one encoding thread is used, so that the same puts, in the order of the rows, give the same file. '
  'Without this request every encoding thread is seeded differently.',
  ['schedules', 'configurations'], 'all schedules and histories of puts',
  'One test compares one pair of runs.',
  ['dyscodatacolumn.cc', 'dyscodatacolumn.h', 'dyscostman.cc'], [('SetStaticRandomizationSeed, defaultThreadCount, initializeEncodeThread', 'dyscodatacolumn')], ['file contents'])
p('P22', 'Weights decode to the stored minimum over polarizations, never out of range',
  'Each weight is stored as a symbol between 0 and 2^b-1 obtained by rounding the minimum over the polarizations scaled by the maximum of the block; decoding scales back with the same factor and gives all polarizations this value. '
  'Negative and non-finite weights are stored as zero and do not affect the scale of others, and a block with only such weights decodes as zeros.',
  ['inputs'], 'all weights including zero, negative and non-finite ones',
  'Tests use a few ordinary weights.',
  ['weightblockencoder.h', 'dyscoweightcolumn.cc'], [('WeightBlockEncoder::Encode/Decode', 'weightblockencoder.h')], ['decoded weights'])
p('P23', 'The command line tools replace a column only after copying it completely',
  'Compressing or decompressing a measurement set copies every row of a column to its replacement before the original is removed, and leaves every column under its own name with its own values. '
  'Exactly the selected columns end up compressed (dscompress) and no DATA or WEIGHT_SPECTRUM column stays compressed (decompress); a rewritten measurement set takes the place of the original only when it is complete. '
  'Unknown options and irregular measurement sets are refused before any column is renamed, added or removed.',
  ['histories', 'configurations'], 'all option combinations, selected columns, storage managers of the columns and row counts',
  'The tools have no tests.',
  ['dscompress.cc', 'decompress.cc', 'stmanmodifier.h'], [('main', 'dscompress.cc, decompress.cc'), ('PrepareReplacingColumn, InitColumnWithDefaultStMan, MoveColumnData, Reorder', 'stmanmodifier.h')], ['contents of the measurement set'])
p('P24', 'Unsupported structural changes are refused without side effects',
  'Removing a row other than the last, adding a column once values were put, and creating scalar, indirect or wrongly typed columns each throw an exception before anything was changed. '
  'Adding rows, removing the last row and making complex data columns and a float WEIGHT_SPECTRUM column succeed and keep the row count exact.',
  ['histories', 'inputs'], 'all sequences of structural changes',
  'Tests only exercise supported operations.',
  ['dyscostman.cc'], [('removeRow, addRow, addColumn, make*Column', 'dyscostman.cc')], ['exceptions', 'row count'])
p('P25', 'Reads return the latest value put for the row',
  'Reading a row returns the value put last, from the buffered block if it is there and otherwise from the stored block; rows that were never put read as zeros. '
  'Moving to another block never discards unstored values, never reads a block from file while it is still waiting to be written, and never mixes rows of different blocks.',
  ['histories', 'schedules'], 'all sequences of puts and gets in any row order',
  'Tests put and get rows in increasing order.',
  ['threadeddyscocolumn.cc', 'timeblockbuffer.h'], [('getValues, putValues, loadBlock, storeBlock', 'threadeddyscocolumn.cc'), ('TimeBlockBuffer', 'timeblockbuffer.h')], ['values read'])
p('P26', 'The blocks of a new table are cut where time, field or data description change',
  'In a new table the number of rows per block is the index of the first row whose time, field or data description differs from the first rows, and the antenna count is one more than the highest antenna index seen. '
  'The layout is fixed exactly once, is identical for all columns and is recorded in the header; it never changes while blocks exist.',
  ['inputs', 'histories'], 'all row metadata and put orders',
  'Tests use one regular antenna layout.',
  ['threadeddyscocolumn.cc', 'dyscostman.cc'], [('putValues', 'threadeddyscocolumn.cc'), ('initializeRowsPerBlock', 'dyscostman.cc')], ['header contents'])
p('P27', 'Removing a column leaves the values of the other columns intact',
  'After a column is removed from a table, the other columns return the same values as before, in the same session and after reopening. '
  'Pending blocks of all columns are written at their own place.',
  ['histories'], 'all combinations of columns and put histories',
  'No test removes a column.',
  ['dyscostman.cc'], [('removeColumn, writeHeader, initializeRowsPerBlock', 'dyscostman.cc')], ['values read'])
p('P28', 'Antenna indices never address outside the tables of a block',
  'Values of a row are only encoded or decoded when the antenna indices of the row are valid for the antenna count of the block layout, where this count is used by the normalization. '
  'Otherwise an exception is thrown, in the thread of the caller, before the row is accepted.',
  ['inputs'], 'all antenna indices in any row',
  'Tests use consistent antenna numbers.',
  ['threadeddyscocolumn.cc', 'dyscodatacolumn.h'], [('checkAntennas', 'threadeddyscocolumn.cc')], ['exceptions'])
p('P29', 'The uninitialised vector keeps size, capacity and contents consistent',
  'After every operation of the vector that buffers blocks, its size is the requested one, its capacity is at least its size, the elements that the operation preserves are preserved, and its memory is released exactly once. '
  'Added elements have the given value, also if that value is an element of the vector itself; a place that is returned is the documented one; copy, move and swap leave both sides valid, and a failing allocation leaves the vector valid.',
  ['inputs', 'histories'], 'all sizes and sequences of operations',
  'Only the paths that the encoders happen to use are executed by tests.',
  ['uvector.h'], [('resize, assign, copy and move assignment', 'uvector.h')], ['size, contents'])
p('P30', 'Reconstruction error is bounded by the quantization step',
  'For every input block the decoded value of each finite sample differs from the stored one by at most the width of its quantization interval times its scale factors.',
  ['inputs'], 'all blocks of finite samples',
  'Tests sample a few blocks.', ['stochasticencoder.h', 'aftimeblockencoder.cc'], [('quantization', 'stochasticencoder.h')], ['decoded samples'])
p('P31', 'Fitting the antenna factors terminates and improves the use of the range',
  'For every block the iterative scaling ends after a bounded number of steps with factors for which no sample exceeds the quantization range.',
  ['inputs'], 'all blocks', 'Tests sample a few blocks.', ['aftimeblockencoder.cc'], [('Normalize, ChangeAntennaFactor', 'aftimeblockencoder.cc')], ['decoded samples'])
p('P32', 'Dithering is unbiased',
  'The expectation of a dithered sample after decoding equals the stored value for every value within the range of the table.',
  ['inputs'], 'all values', 'A test averages a few values.', ['stochasticencoder.h'], [('EncodeWithDithering', 'stochasticencoder.h')], ['decoded samples'])
p('P33', 'A crash leaves the stored blocks readable',
  'If the process dies at any moment, all blocks that were reported as flushed can be read after restart.',
  ['crash_points'], 'all crash points', 'No test crashes the process.', ['dyscostman.cc'], [('flush', 'dyscostman.cc')], ['values read after restart'])
p('P34', 'The block buffer returns exactly the rows that were put',
  'Putting a row into the buffer of a block keeps exactly its antennas and all its values at the place of that row, leaves all other rows as they were and makes the buffer just large enough. '
  'Getting a row returns these values; rows that were not put are zero. Converting the buffer for an encoder keeps the rows, antennas and values, and the largest antenna index covers both antennas of every row.',
  ['inputs', 'histories'], 'all shapes of a buffer: polarizations, channels, rows, and which of them were put, in any order',
  'Tests put full blocks in increasing order.',
  ['timeblockbuffer.h'], [('SetData, GetData, FillMissingRows, ConvertVector, MaxAntennaIndex', 'timeblockbuffer.h')], ['values read', 'number of antennas of a block'])
p('P35', 'The compression tool applies the options that were given',
  'For every list of options dscompress makes the storage manager with the bit rates, distribution, truncation, normalization and seed that the options ask for (the last one wins), and with the documented defaults for those not given. '
  'It opens the measurement set named after the options, rewrites it exactly if asked for, and refuses unknown options.',
  ['configurations', 'inputs'], 'all lists of options, in any order and with any values',
  'The tools have no tests.',
  ['dscompress.cc'], [('main, createDyscoStManColumn', 'dscompress.cc')], ['settings of the storage manager', 'contents of the measurement set'])
p('P36', 'Compressing replaces exactly the flagged visibilities by NaN',
  'Before dscompress compresses a selected column of visibilities, every value whose flag is set in the same row and at the same place becomes NaN in that column, and no value whose flag is not set is changed. '
  'Flags and weights are not changed.',
  ['inputs', 'configurations'], 'all columns, shapes, flags and values',
  'The tools have no tests.',
  ['dscompress.cc'], [('main', 'dscompress.cc')], ['contents of the measurement set'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
