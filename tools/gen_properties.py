#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are reviewable in one place)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)
LC='huff_coding/src/comp.rs'; TI='huff_coding/src/tree/tree_inner.rs'; W='huff_coding/src/weights.rs'
LT='huff_coding/src/tree/letter.rs'; BR='huff_coding/src/tree/branch.rs'; BH='huff_coding/src/tree/branch_heap.rs'; LF='huff_coding/src/tree/leaf.rs'
LU='huff_coding/src/utils.rs'; HC='huff/src/comp.rs'; CLI='huff/src/cli.rs'; HU='huff/src/utils.rs'; YML='huff/res/cli.yml'; ER='huff/src/error.rs'; MN='huff/src/main.rs'

p('C01','Compressing then decompressing returns the original letters',
  'For every non-empty sequence of letters, of any supported letter type and alphabet size, decompressing what the library compressed returns exactly the original sequence. The same holds when the caller supplies the tree, whatever weights it was built from and even if it was read back from its binary form, as long as it has a code for every letter used.',
  ['inputs'],'all non-empty letter sequences over all integer types, char, &str, String; all covering trees (any depth, weights, origin)',
  'The tests compress one short text and a few six-letter slices; padding, code length, alphabet size and tree shape combinations are unbounded.',
  [LC,TI,BH],[('compress/compress_with_tree bit packing',LC),('decompress tree walk',LC),('set_codes_in_child_branches',TI)],['compress','compress_with_tree','decompress','CompressData'])
p('C02','Compressed data survives conversion to bytes and back',
  'For every integer letter type and every user-defined one with a byte form as wide as the type, compressed data converted to bytes and read back has the same compressed bytes, the same padding and the same letter codes, and decompresses to the original letters. Converting the read-back value to bytes again yields identical bytes.',
  ['inputs'],'all compressed data over the twelve integer letter types, any tree (including tree encodings longer than 64 KiB) and any data length',
  'One doc-test round-trips b"abbccc" as u8; other widths, large trees and other padding pairs are never serialised.',
  [LC,TI,LT],[('to_bytes',LC),('try_from_bytes',LC),('as_bin/try_from_bin',TI)],['CompressData::to_bytes','CompressData::try_from_bytes'])
p('C03','The byte form of compressed data follows the documented layout',
  'The byte form is one byte holding the tree padding (high half) and data padding (low half), each 0 to 7, then the tree length in bytes as a 4-byte big-endian number, then the tree encoding (1 for a joint branch followed by its left and right parts, 0 for a letter followed by its big-endian bytes), then the compressed data. The data is exactly the concatenated codes of the letters in order, most significant bit first, followed by only the stated padding bits, so a reader that knows nothing but this description recovers the original letters.',
  ['inputs'],'all compressed data over all integer letter types',
  'The layout is spelled out by one doc-test for one input; an independent reader is needed to see it hold for other widths, paddings, lengths and tree shapes.',
  [LC,TI,LU],[('to_bytes header',LC),('compress_with_tree padding',LC),('as_bin',TI),('calc_padding_bits',LU)],['CompressData::to_bytes','comp_bytes','padding_bits'])
p('C04','A tree gives exactly its letters a complete prefix-free code',
  'A tree built from any non-empty weights gives every weighted letter exactly one non-empty code and codes nothing else; no code is a prefix of another and, with two or more letters, the codes are complete (every infinite bit string decodes), while a lone letter has the one-bit code 0. Codes reported by the tree, with any hasher, equal the left (0) / right (1) path to the letter and the code stored at its leaf.',
  ['inputs'],'all non-empty weight collections (HashMap over any letter type, ByteWeights), including ties, zero weights, very skewed weights and large alphabets',
  'Tests check the exact codes of a handful of 3- to 6-letter alphabets without ties.',
  [TI,BH,W],[('from_weights merge loop',TI),('HuffBranchHeap ordering',BH),('read_codes_with_hasher',TI),('set_codes_in_child_branches',TI)],['HuffTree::from_weights','read_codes','read_codes_with_hasher','root'])
p('C05','The code is optimal for the weights',
  'For any non-empty weights whose sum fits in a machine word, the total weighted code length of the tree is the minimum over all prefix codes, every letter leaf carries its own weight and every joint branch the sum of its children. Hence compressing a sequence yields the fewest data bits any letter-by-letter prefix code could.',
  ['inputs'],'all non-empty weight collections with sum <= usize::MAX; all non-empty letter sequences',
  'Minimality is a statement over all alternatives; tests compare a few small hand-made trees only.',
  [TI,BH,LF,W],[('pop two minima, push joint',TI),('reversed heap order',BH),('ByteWeights iteration feeds the tree',W)],['HuffTree::from_weights','leaf().weight()','compress'])
p('C06','A tree survives its binary form unchanged',
  'For every tree over an integer letter type, or a user-defined one with a byte form as wide as the type, nested no deeper than a thousand levels, its binary form follows the documented scheme (preorder, 1 for joint, 0 plus the big-endian letter for a leaf) and reading it back gives a tree of the same shape with the same letters and the same codes, every weight being 0. Conversely writing out a tree that was read from a well-formed binary form reproduces exactly those bits.',
  ['inputs'],'all trees built from weights and all well-formed encodings (any shape, up to a thousand levels) over the twelve integer types',
  'Tests round-trip two u8 trees; other widths, signs and shapes such as chains or lone letters are not reached.',
  [TI,LT],[('as_bin',TI),('try_from_bin',TI),('integer_letter_impl',LT)],['HuffTree::as_bin','HuffTree::try_from_bin'])
p('C07','Reading a tree from arbitrary bits either succeeds exactly or errs',
  'Reading a tree from any bit sequence never panics, crashes or overruns: it succeeds if and only if the bits are exactly one well-formed tree encoding for that letter type, and otherwise returns an error. Bits missing, bits left over and letter bytes the letter type itself refuses are all errors; only nesting beyond a thousand levels may be refused although well-formed.',
  ['inputs'],'all bit sequences (truncations, extensions, flips of valid encodings, random bits, extreme nesting), all integer types and user-defined fallible letter types',
  'Tests try one wrong type and one empty vector; the space of malformed inputs is unbounded and failures appear only for particular shapes.',
  [TI,LT],[('read_branches_from_bits',TI),('leftover-bits check',TI),('try_from_be_bytes',LT)],['HuffTree::try_from_bin'])
p('C08','Reading compressed data from arbitrary bytes never misbehaves',
  'Reading compressed data from any byte sequence never panics or crashes: input too short for its header, tree or at least one data byte, a tree length below 2, a data padding above 7 or an invalid tree gives an error. Whatever is accepted exposes exactly the stored padding, data bytes and tree, and decompresses, without panicking, to what the documented format says.',
  ['inputs'],'all byte sequences (mutated and truncated valid data, structured garbage, random bytes), for each integer letter type',
  'No test feeds malformed bytes to this reader at all.',
  [LC,TI],[('try_from_bytes checks',LC),('CompressData::new assertions',LC),('decompress',LC)],['CompressData::try_from_bytes','decompress'])
p('C09','Compressing with a tree that lacks a letter is reported, never wrong',
  'Compressing with a supplied tree fails if and only if some letter of the sequence has no code in the tree, and the error names the first such letter. No letter is ever dropped or substituted.',
  ['inputs'],'all pairs of non-empty letter sequence and tree',
  'One should_panic doc-test covers one missing letter at the end of the slice.',
  [LC],[('code lookup in compress_with_tree',LC),('CompressError',LC)],['compress_with_tree','CompressError::missing_letter'])
p('C10','Letter counting is exact, however it is done',
  'Counting letters of any slice yields, for each distinct letter, exactly its number of occurrences, and nothing for other letters, for every letter type and hasher. For bytes, the single-threaded and the threaded count (any positive number of threads) agree with this, and lookup, number of distinct letters, emptiness and both kinds of iteration all describe the same counts, each byte once.',
  ['inputs','configurations'],'all slices including empty ones; all thread counts >= 1 in relation to the length; all hashers',
  'Tests count a handful of bytes, one thread count, and never check iteration for duplicates.',
  [W,LU],[('ByteWeights::from_bytes/threaded_from_bytes',W),('IntoIter/Iter',W),('ration_vec',LU),('build_weights_map_with_hasher',W)],['ByteWeights','build_weights_map','build_weights_map_with_hasher'])
p('C11','Byte counts stay exact under any history of operations',
  'After any history of creating, cloning, adding (by +, += or the named method), and changing stored weights in place, byte counts behave like a map from byte to weight: sums are exact, operands are unaffected, equality means same weights, and lookup, length, emptiness and iteration agree with the map, a byte of weight 0 counting as absent.',
  ['histories'],'all sequences of ByteWeights operations over several live values',
  'Tests perform one addition of two values; no test looks at length, iteration or equality after additions or in-place edits.',
  [W],[('add_byte_weights',W),('get_mut',W),('len bookkeeping',W),('PartialEq',W)],['ByteWeights'],
  [('weights','count per byte',W),('len','number of distinct bytes',W)])
p('C12','Integer letters convert to big-endian bytes and back exactly',
  'For every value of each of the twelve integer letter types, its byte form is its big-endian representation of exactly the width of the type, and reading that back gives the same value. A byte slice of any other length is refused with an error.',
  ['inputs'],'all values of all integer letter types; byte slices of all lengths',
  'Only u8 letters are ever converted in the tests.',
  [LT],[('integer_letter_impl',LT)],['HuffLetterAsBytes::as_be_bytes','HuffLetterAsBytes::try_from_be_bytes'])
p('C13','huff restores every file exactly, whatever the block sizes',
  'For every non-empty file, compressing it with the command-line tool and decompressing the result restores it byte for byte. This holds for every block size used for compressing and, independently, for decompressing.',
  ['inputs','configurations'],'all non-empty file contents and all pairs of positive block sizes (including 1 byte, sizes dividing the file or archive exactly, and the default)',
  'The command-line crate has no tests at all; failures need particular alignments of block boundaries with code bits.',
  [HC,HU,CLI,LC,W],[('compress_to_writer block joining',HC),('offset_bytes',HU),('decompress_to_writer',HC),('huff_tree_from_reader',HC)],['huff SRC DST','huff -d SRC DST','-b'])
p('C14','Archives follow the documented hff format and are as small as possible',
  'Every archive the tool writes is readable by an independent reader of the documented hff format and by the library, for any block size, and contains nothing else; its tree holds exactly the bytes of the file and its data bits are the minimum for a letter-by-letter prefix code. Conversely the tool decompresses every archive made by the library or by any other writer of the format, whatever the shape of its tree.',
  ['inputs','configurations'],'all non-empty file contents, all block sizes, all well-formed archives',
  'No test reads or writes an hff file.',
  [HC,HU,LC,TI,W],[('read_compress_write header',HC),('padding combination across blocks',HC),('read_decompress_write',HC)],['hff file bytes'])
p('C15','huff -d on arbitrary archive contents never crashes or invents data',
  'Decompressing any file content whatsoever ends either with a clean error (exit status 1 and a message, no panic, no abort) or with exactly the bytes the documented format prescribes. A missing or truncated header or tree, paddings above 7 and an invalid tree are always errors.',
  ['inputs','configurations'],'all file contents (mutated, truncated and extended archives, structured garbage) and block sizes',
  'No test runs the tool on a malformed archive.',
  [HC,TI,CLI],[('header checks in read_decompress_write',HC),('try_from_bin',TI)],['huff -d exit status, stderr, output file'])
p('C16','Exit status 0 means the destination is complete and correct',
  'If any read, write, seek or open fails while the tool runs, it exits with a non-zero status; whenever it exits with 0 after doing work, the destination holds the complete, correct result. Short reads, short writes and interrupted system calls change nothing about the result.',
  ['fault_sequences','inputs','configurations'],'every system-call index at which an I/O error (EIO, ENOSPC, ...) or a short or interrupted transfer can occur, in both directions, for varied files and block sizes',
  'Tests never inject I/O faults; the outcome depends on which call fails.',
  [HC,CLI,ER],[('error propagation from reads and writes',HC),('writer.flush',HC)],['exit status','destination file'])
p('C17','The source file is never lost or altered',
  'The tool never modifies its source file, and removes it only if asked to (-r) and only after the complete, correct result is in the destination; so after any failure, I/O error, refusal or kill at any point, the source is intact or the destination is complete. This includes naming the source itself, directly or through another path or link, as the destination.',
  ['fault_sequences','crash_points','inputs','configurations'],'every failing or killing system-call index, all flag combinations, and all ways source and destination paths can coincide',
  'No test runs the tool, let alone with faults, kills or coinciding paths.',
  [CLI,HC],[('remove_file after completion',CLI),('path derivation in parse_paths',CLI),('flush before removal',HC)],['source file contents and existence'])
p('C18','huff writes only where it said it would, and replaces only with consent',
  'The result goes to the named destination (with .hff appended when compressing; by default ./NAME.hff, and for decompressing a file of the current directory, ./NAME without .hff), and no other file is created, changed or removed (with -r the source is removed once the work is done). An existing destination is replaced only with -n or after an answer starting with y or Y to the question; any other answer or end of input leaves every file as it was.',
  ['inputs','configurations','histories'],'all file names, destinations, flag combinations, pre-existing files and answers, over sequences of invocations',
  'No test runs the tool; names with several dots, no extension, spaces, non-UTF-8 bytes or subdirectories all take different paths.',
  [CLI,YML],[('parse_paths',CLI),('ask_replace',CLI)],['directory tree before/after','stdout prompt','exit status'])
p('C19','Invalid invocations are refused cleanly and change nothing',
  'A block size is accepted exactly if it is a positive decimal number optionally followed by K, M, G, Ki, Mi or Gi (any case) that fits a machine word; any other block size, a missing source, a source that is a directory (however spelled), an empty source to compress, or a source without the .hff extension to decompress is refused with a message and a non-zero status, without a panic. An unknown option or a missing or surplus path is refused too, and asking for help or the version prints it. A run refused in these ways, or asked only for help, creates, changes and removes nothing.',
  ['inputs','configurations'],'all block size strings, kinds of source path and flag combinations',
  'No test runs the tool; overflow, zero, odd units and paths such as .. behave differently from simple ones.',
  [CLI,HC,YML],[('parse_block_size',CLI),('parse_paths directory/extension checks',CLI)],['exit status','stderr','directory tree before/after'])
p('C20','Memory use is bounded by the block size, not by the file size',
  'With a given block size the tool never loads more than that many bytes of the source\'s data (beyond a small fixed buffer and the tree of an archive) at one time, in either direction. Its peak memory depends on the block size and not on the size of the file.',
  ['inputs','configurations'],'all file sizes and block sizes, with every unit suffix',
  'No test runs the tool with a block size.',
  [HC,CLI],[('fixed buf of block_size',HC),('parse_block_size units',CLI)],['sizes of read calls on the source','peak resident memory'])
p('C21','Hand-built branches and trees report what was put into them',
  'After any history of building branches, replacing or removing children and setting codes, a branch has either both children or none, its left, right, mutable and iterated views agree (left first), and letter, weight and code are those last set. Branches and leaves compare by weight alone, consistently as a total order.',
  ['histories','inputs'],'all sequences of branch and leaf operations over all letter types',
  'Doc-tests build three branches and compare three.',
  [BR,LF],[('HuffBranch::new/set_children',BR),('ChildrenIter',BR),('Ord/Eq impls',LF)],['HuffBranch','HuffLeaf','ChildrenIter'])
p('C22','A tree changed through its root is used as it is now',
  'After any history of changes made to a tree through its root (letters, subtrees, the whole tree, weights, cloning, passing through compressed data), where every leaf is given its path as its code, the codes the tree reports, its binary form, what it compresses and decompresses to and the letters it reports as missing are all those of the tree as it now is, and a clone made before a change is unaffected by it.',
  ['histories','inputs'],'all sequences of edits of trees built from weights or read from bits, over all letter types, with uses in between',
  'No test changes a tree; only uses after changes (in particular after earlier uses) can show state that was kept.',
  [TI,BR,LC],[('HuffTree::root_mut',TI),('read_codes',TI),('as_bin',TI),('compress_with_tree',LC),('decompress',LC)],['HuffTree::root_mut','read_codes','as_bin','compress_with_tree','decompress'])
p('C23','Library calls do not influence one another',
  'Whatever was counted, built, compressed, converted or decompressed before, whether buffers, trees and data are used once or many times, and whatever goes on in other threads, every library call gives the result its own arguments call for; with the same tree and the same letters it gives the same bytes again.',
  ['histories','schedules','inputs'],'all interleavings of library calls over several related inputs, in reused or separate buffers, in one or several threads',
  'Each test makes one call on one input.',
  [LC,TI,W],[('compress/compress_with_tree/decompress',LC),('to_bytes/try_from_bytes',LC),('from_weights/try_from_bin/as_bin',TI),('build_weights_map, ByteWeights',W)],['all functions of the prelude'])
p('C24','Reading takes memory in proportion to what is there, not to what it claims',
  'Reading a tree from bits or compressed data from bytes never allocates more than a fixed multiple of the input at a time (plus a small constant), whatever lengths or nesting the input claims, and decompressing accepted data never more than a fixed multiple of the data and its tree.',
  ['inputs'],'all bit and byte sequences, hostile ones included',
  'No test measures memory, or reads input whose header claims more than there is.',
  [LC,TI],[('try_from_bytes',LC),('decompress',LC),('try_from_bin',TI)],['HuffTree::try_from_bin','CompressData::try_from_bytes','decompress'])
p('C25','A run of huff depends on nothing but its arguments and files',
  'The archive made from a file, and the file made from an archive, are the same bytes whatever the block size, environment variables, working directory, standard input (when nothing is asked), number of processors and limits on open files, the name, time and mode of the source, where the result goes and what was there before, the order of the options, and earlier runs; and whatever other runs go on at the same time with other destinations, even on the same source or in the same directory. Nothing but the result is left behind.',
  ['configurations','schedules','inputs'],'all files and archives, in all circumstances of a run, alone or next to other runs',
  'No test runs the tool; results that depend on a random order, a shared file or the environment look right in any single run.',
  [HC,CLI,W,BH],[('read_compress_write/read_decompress_write',HC),('process_args',CLI),('threaded_from_bytes',W),('ordering of branches of the same weight',BH)],['bytes of the destination','directory tree before/after','exit status'])
p('C26','Work grows in proportion to the data',
  'Counting, building a tree, compressing, converting and decompressing, in the library and in the tool, take time in proportion to the number of letters (up to a logarithmic factor), also when the number of different letters grows with it. The tool reads its source a fixed number of times, writes its result once (apart from single bytes at the borders of blocks), and its number of file operations is bounded by the number of blocks and of fixed-size buffers.',
  ['inputs','configurations'],'all letter sequences, alphabets, files and block sizes',
  'Tests use inputs of a few bytes, on which quadratic work cannot be told from linear.',
  [LC,TI,W,BH,HC,LU],[('compress_with_tree/decompress',LC),('HuffBranchHeap',BH),('try_from_bin/as_bin',TI),('compress_to_writer/decompress_to_writer',HC),('offset_bytes',HU)],['processor time','sizes and number of file operations'])
p('C27','huff says only what it has to, where it has to',
  'Standard output carries nothing but the question whether to replace (exactly when the destination exists and -n is not given, naming the destination) and, with -t, a last line telling the time the work took, which is no less than the work took and no more than the run. Standard input is read only for the answer. Messages about failures go to standard error, and a run that succeeds leaves standard error empty.',
  ['inputs','configurations','schedules'],'all flag combinations, existing destinations, answers, refusals and delays at any file operation',
  'No test runs the tool; a message in the wrong place or a time that covers part of the work shows only when output is compared with what was done.',
  [CLI,HC,MN],[('ask_replace',CLI),('process_args: -t',CLI),('main: error printing',MN)],['stdout','stderr','position in stdin','exit status'])
p('C28','What cannot be is refused when it is made',
  'CompressData::new takes exactly the parts that can be compressed data (at least one byte, at most 7 padding bits), and panics on others as documented; what it takes it gives back unchanged. HuffTree::from_weights panics on weights without a letter, of every Weights type, and on no others; compress panics on an empty slice and on no other.',
  ['inputs'],'all byte vectors, paddings and trees; all weights of every Weights type; all slices',
  'One doc-test per panic; nothing shows that there are no others, or that they come at the limits stated.',
  [LC,TI,W],[('CompressData::new',LC),('into_inner',LC),('from_weights',TI),('compress',LC)],['CompressData::new','HuffTree::from_weights','compress'])
p('C29','What a call uses is in proportion, and given back',
  'Once everything a library call returned has been dropped, nothing it allocated is still held, whatever the call was given, whether it succeeded, reported an error or panicked as documented, and however often and with whatever arguments it is repeated; replaced subtrees and overwritten codes are freed as well. Counting, building a tree, compressing, converting and decompressing never hold more at a time than a fixed multiple of the letters, codes and data they are given and return (plus a small constant).',
  ['inputs','histories'],'all library calls on all letter types that own memory or not, all outcomes, all repetitions',
  'A leak or an oversized buffer changes no result; it shows only when what is allocated is counted, over calls that are repeated and fail in every way.',
  [LC,TI,W,BR,LF],[('error values',LC),('compress_with_tree buffer',LC),('try_from_bin: partly read trees',TI),('set_children/set_code',BR),('threaded_from_bytes',W)],['bytes held by the global allocator after and during calls'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
