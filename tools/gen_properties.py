#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=hook)))

p("C01", "The Lyndon factorization is complete, ordered and unique",
  "For every non-empty byte string the reported Lyndon factors concatenate to the string, every factor is strictly smaller than each of its proper suffixes, and the factors never increase lexicographically, so they are the unique Lyndon factorization. The factor count, the written factor file (which leaves out a final factor consisting of one zero byte) and the logged ending positions all describe this factorization. The factorization read off the inverse suffix array is the same one.",
  ["inputs"], "every non-empty string over any ordered alphabet; every output form of the tool",
  "test_duval only compares two algorithms on ~2000 deterministic sentinel-terminated binary strings of length <= 12; nothing tests the tool, its file output, larger alphabets, long or unterminated strings.",
  ["src/core.rs","src/bin/lyndonfactorization.rs"],
  [("Duval's algorithm","src/core.rs: duval"),("prefix minima of the inverse suffix array","src/core.rs: isa_lyndon_factorization"),("factor file","src/bin/lyndonfactorization.rs: main")],
  [("k,i,j","start of the current factor and the two scan heads","src/core.rs: duval")],
  ["core::duval","core::isa_lyndon_factorization","lyndonfactorization stdout, -o file, RUST_LOG=debug log"])

p("C02", "The terminated BWT is the sorted-rotation column and is invertible",
  "For every byte string without zero bytes, the Burrows-Wheeler transform of the string followed by the terminating zero byte is the last column of its lexicographically sorted rotations; hence it is a permutation of it and the string can be recovered from it. When the terminator is left out, the output lists the (cyclically) preceding characters of the lexicographically sorted suffixes. An input with a zero byte anywhere but at the end is refused, never transformed.",
  ["inputs","configurations"], "every zero-free string of every length, with and without the terminator; every input containing a zero byte",
  "test_bwt_from_text_by_sa counts the runs of seven Fibonacci words only; no test looks at a BWT's content, at the bwt tool, or at refusal.",
  ["src/core.rs","src/bin/bwt.rs"],
  [("suffix array to BWT","src/core.rs: bwt_from_text_by_sa"),("naive SA and BWT from SA","src/core.rs: suffixarray_naive, bwt_from_sa"),("terminator policy","src/bin/bwt.rs: main")],
  [], ["core::bwt_from_text_by_sa","core::bwt_from_sa","core::suffixarray_naive","bwt stdout and -o file"])

p("C03", "The rotation BWT is the last column of the sorted rotations of any text",
  "For every non-empty string over the full byte alphabet and of any length, the rotation (matrix) variant of the Burrows-Wheeler transform returns the last column of the lexicographically sorted rotations of exactly that string. The direct and the suffix-sorting computation return the same result, and all rotations of a string have the same result.",
  ["inputs","configurations"], "every non-empty byte string including those with zero bytes; lengths on both sides of the tools' internal switch; with and without terminator",
  "test_bwt_by_matrix uses deterministic binary strings of length <= 11 with symbols 1 and 2; the tool switches algorithm at length 100 and no test crosses it or uses zero bytes.",
  ["src/core.rs","src/bin/bwt.rs","src/bin/count_r.rs"],
  [("direct sort of rotations","src/core.rs: bwt_by_matrix_naive"),("smallest rotation plus suffix sorting","src/core.rs: bwt_by_matrix"),("algorithm switch","src/bin/bwt.rs: main")],
  [], ["core::bwt_by_matrix_naive","core::bwt_by_matrix","bwt -u stdout"])

p("C04", "The bijective BWT sorts the Lyndon factors' rotations and is a bijection",
  "For every non-empty string, the bijective Burrows-Wheeler transform lists the cyclically preceding character of every rotation of every Lyndon factor, the rotations being ordered by comparing their infinite repetitions. It is a permutation of the string's characters, and no two different strings share a result.",
  ["inputs"], "every non-empty string over any ordered alphabet",
  "The function has no test at all.",
  ["src/core.rs"], [("rotations of Lyndon factors sorted in omega order","src/core.rs: bbwt_naive")],
  [], ["core::bbwt_naive"])

p("C05", "LZ77 parses greedily with the longest earlier occurrence and decodes back",
  "For every non-empty byte string, each LZ77 factor is either a literal for a character that has not occurred before, or a copy (distance, length) whose length is the longest prefix of the remaining text that also starts at an earlier position (overlaps allowed) and whose distance leads to such an occurrence. Decoding the written factors gives back exactly the input, and the reported factor count is the number of these factors.",
  ["inputs"], "every non-empty byte string",
  "test_compute_lz77 only checks decodability on ~2000 deterministic sentinel-terminated binary strings of length <= 12, never greediness, the written file or the count.",
  ["src/bin/count_z.rs","src/core.rs"], [("parse by previous/next smaller values of the suffix array and LCP minima","src/bin/count_z.rs: compute_lz77"),("factor file","src/bin/count_z.rs: main")],
  [("i","parse position","src/bin/count_z.rs: compute_lz77")], ["count_z stdout and -o file"])

p("C06", "Lex-parse copies from the lexicographic predecessor and decodes back",
  "For every non-empty byte string, each lex-parse factor at a position is a literal if that suffix shares no prefix with its lexicographic predecessor among the suffixes (or has none), and otherwise copies from the predecessor's position exactly the length of their longest common prefix. The references are never circular, so the written factors determine the input uniquely, and the reported factor count is the number of these factors.",
  ["inputs"], "every non-empty byte string, with or without a terminator",
  "count_lexparse has no test.",
  ["src/bin/count_lexparse.rs","src/core.rs"], [("Phi and PLCP driven parse","src/bin/count_lexparse.rs: compute_lexparse")],
  [("i","parse position","src/bin/count_lexparse.rs: compute_lexparse")], ["count_lexparse stdout and -o file"])

p("C07", "The minimal unique substrings are reported exactly",
  "For every non-empty byte string without zero bytes, the reported pairs (start, length) are, in increasing order of start, exactly the substrings that occur once in the string while all their proper substrings occur more than once.",
  ["inputs"], "every non-empty zero-free byte string, whatever its last character is",
  "test_mus_fibonacci checks twelve Fibonacci words that are terminated by hand; the tool itself is never run.",
  ["src/bin/mus.rs"], [("shortest unique lengths from LCP neighbours","src/bin/mus.rs: get_mus")],
  [], ["mus stdout"])

p("C08", "A position set is accepted iff it is a string attractor",
  "For every non-empty zero-free byte string and every set of positions inside it, the attractor tool reports the set as valid exactly if every substring has an occurrence covering one of the positions, and otherwise reports it as not valid and names only substrings that indeed have no such occurrence. A position beyond the terminated string is refused, and the three outcomes are distinguished by the exit status.",
  ["inputs","configurations"], "every zero-free byte string (any encoding) with every set of positions, in any order and with repetitions",
  "The two tests only accept known attractors of two word families; no test ever expects a rejection, so a procedure answering 'valid' always would pass.",
  ["src/bin/is_stringattractor.rs"], [("suffix-tree edges from LCP intervals","src/bin/is_stringattractor.rs: lcp_intervals"),("range minimum over distances to the next position","src/bin/is_stringattractor.rs: is_attractor")],
  [("path","stack of open LCP intervals","src/bin/is_stringattractor.rs: lcp_intervals")], ["is_stringattractor stdout and exit status"])

p("C09", "The k-th order empirical entropy is that of the terminated text",
  "For every zero-free byte string and every order k >= 0, the reported entropy is the k-th order empirical entropy of the text followed by the terminator: the sum, over all contexts of length k, of the number of characters following the context times the zeroth-order entropy of these characters, divided by the length of the terminated text. A text with a zero byte is refused for k >= 1.",
  ["inputs","configurations"], "every zero-free byte string, every order including orders longer than the text",
  "The test checks unary and (ab)^n texts only, which have a single non-trivial context.",
  ["src/bin/entropy.rs","src/core.rs"], [("blocks of the LCP array with values >= k","src/bin/entropy.rs: kth_order_entropy"),("character counting","src/bin/entropy.rs: zero_order_entropy")],
  [("contextcount","size of the open block of suffixes sharing a context","src/bin/entropy.rs: kth_order_entropy")], ["entropy RESULT line"])

p("C10", "Counting k-mers yields the same entropy as suffix sorting",
  "For every zero-free byte string and every order from 1 to 7 that the terminated text can fill, the k-mer based tool reports the k-th order empirical entropy of the text followed by the terminator, that is, the same value as the suffix-array based tool up to floating-point rounding, together with the length of the terminated text. Other orders are refused.",
  ["inputs","configurations"], "every zero-free byte string over the full byte range and every order 1..7",
  "The test checks unary and (ab)^n texts with orders up to 6 only; never order 7, larger alphabets or bytes >= 128, and never compares the two tools.",
  ["src/bin/entropy_kmer.rs"], [("64-bit ring buffer of the last k+1 bytes","src/bin/entropy_kmer.rs: entropy_via_kmer_counting")],
  [("ringbuf","the last bytes read, packed","src/bin/entropy_kmer.rs: entropy_via_kmer_counting")], ["entropy_kmer RESULT line"])

p("C11", "Run counts equal the number of maximal runs",
  "For every byte string the reported number of runs is the number of maximal blocks of equal consecutive bytes, zero for the empty string, no matter in how many pieces a stream delivers the bytes. The BWT run counter reports the number of runs and the length of exactly the transform that the BWT tool writes for the same input and options.",
  ["inputs","configurations","histories"], "every byte string, every fragmentation of the stream, every combination of the terminator and matrix options",
  "No test counts runs of anything but seven Fibonacci-word BWTs (always two runs); count_runs and count_r have no tests.",
  ["src/core.rs","src/bin/count_runs.rs","src/bin/count_r.rs"], [("streaming run counter","src/core.rs: number_of_runs"),("BWT run counter","src/bin/count_r.rs: main")],
  [("prev_char, run_counter","current run","src/core.rs: number_of_runs")], ["core::number_of_runs","count_runs stdout","count_r RESULT line"])

p("C12", "The alphabet size is exact for every set of bytes",
  "For every byte string the reported alphabet size is the number of distinct byte values in it, from 0 for the empty string up to 256, together with the number of bytes analysed.",
  ["inputs"], "every byte string, including those using all 256 byte values",
  "The test uses at most three distinct letters.",
  ["src/bin/count_sigma.rs"], [("first-occurrence numbering","src/bin/count_sigma.rs: count_sigma")],
  [("alphabet_to_reduced","first-occurrence number per byte","src/bin/count_sigma.rs: count_sigma")], ["count_sigma RESULT line"])

p("C13", "Escaping is lossless and removes every byte to be escaped",
  "For every byte string and every accepted choice of escape symbol and equally long lists of symbols to escape and safe symbols, the escaped output contains none of the symbols to escape, and reverting it with the same choice gives back the original. Each escape symbol is doubled, each symbol to escape becomes the escape symbol followed by its safe symbol, and all other bytes are unchanged. Ambiguous choices (unequal lengths, overlapping lists, the escape symbol in a list, a safe symbol used twice) are refused, and a malformed escaped input (an escape symbol at its end, or followed by neither the escape symbol nor a safe symbol) makes the reversion fail instead of producing output for the malformed part.",
  ["inputs","configurations"], "every byte string, every symbol configuration, lists given as repeated options or separated by commas, with no prefix length given or one given",
  "The escape tool has no test.",
  ["src/bin/escape.rs"], [("forward transducer","src/bin/escape.rs: main, else branch"),("reverse transducer","src/bin/escape.rs: main, is_reversion branch"),("sanity checks","src/bin/escape.rs: main")],
  [("char_mapping/revert_mapping","symbol tables","src/bin/escape.rs: main")], ["escape stdout, -o file and exit status"])

p("C14", "Run-length encoding is lossless for runs of any length",
  "For every byte string the binary run-length encoding is a sequence of (character, length minus one) byte pairs that expands to the input, splitting a run only after every 256 repetitions. The zero-only variant encodes each run of the digit character zero in that way and copies all other bytes unchanged, in place. The human-readable variant lists every maximal run with its exact length.",
  ["inputs","configurations"], "every byte string, runs of every length, runs at the start, in the middle and at the end, each output mode",
  "rle has no test.",
  ["src/bin/rle.rs"], [("binary encoder","src/bin/rle.rs: rle"),("zero-run encoder","src/bin/rle.rs: rle_zero"),("text encoder","src/bin/rle.rs: rle_text"),("option parser","src/bin/rle.rs: Args")],
  [("prev_char, run_counter","the open run","src/bin/rle.rs")], ["rle stdout and -o file"])

p("C15", "Move-to-front encoding is a bijection over all byte values",
  "For every byte string, each output byte is the current position of the input byte in a list that initially holds all 256 byte values in increasing order and moves every byte read to its front. The output is therefore as long as the input and decodes back to it.",
  ["inputs","histories"], "every byte string over all 256 byte values and every history of accesses",
  "The test uses five strings over a and b.",
  ["src/bin/mtf.rs"], [("list update","src/bin/mtf.rs: mtf")],
  [("mtfvector","the recency list","src/bin/mtf.rs: mtf")], ["mtf stdout and -o file"])

p("C16", "Every source of the same bytes and every prefix length are treated alike",
  "A tool analyses exactly the bytes of its input - the first P of them if a prefix length P > 0 is given and the input is longer, all of them otherwise - whether they come from a regular file, a named pipe or standard input; the results of two runs on the same bytes agree (entropies up to the rounding of their sum). Reversal, in particular, writes exactly these bytes in reverse order.",
  ["inputs","configurations"], "every input of every length including none, every prefix length below, at and above the input length, each kind of source, each tool taking an input",
  "No test runs a tool; the reading functions are not tested at all.",
  ["src/io.rs","src/bin/reverse.rs"], [("file reading","src/io.rs: file2byte_vector"),("standard input reading","src/io.rs: stdin2byte_vector"),("stream selection","src/io.rs: stream_or_stdin")],
  [], ["stdout, -o file and exit status of all tools with -i or -p"])

p("C17", "The suffix-array companion tables satisfy their definitions",
  "For every non-empty text and its suffix array, the inverse permutation, the lexicographic-predecessor table (cyclic at the smallest suffix), the permuted and the plain LCP array (zero at the smallest suffix) and the arrays of previous and next smaller entries (of any array with distinct or repeated values) hold exactly the values that their definitions prescribe.",
  ["inputs"], "every non-empty byte text with or without terminator; every array for the smaller-value tables",
  "No test checks one of these tables; they are only used inside tests of other results on short binary strings.",
  ["src/core.rs"], [("inverse","src/core.rs: inverse_permutation"),("Phi","src/core.rs: compute_phi"),("Kasai-style PLCP","src/core.rs: compute_plcp"),("LCP","src/core.rs: compute_lcp"),("PSV/NSV chains","src/core.rs: compute_psv, compute_nsv")],
  [("length","carried match length","src/core.rs: compute_plcp")], ["core::inverse_permutation","core::compute_phi","core::compute_plcp","core::compute_lcp","core::compute_psv","core::compute_nsv"])

p("C18", "Borders, smallest period and primitivity are exact",
  "For every string, entry i of the border table is the length of the longest proper border of its prefix of length i (zero for i = 0 and i = 1), the smallest period is the least p such that the string agrees with itself shifted by p, and a non-empty string is reported primitive exactly if it is not a repetition of a shorter string.",
  ["inputs"], "every non-empty string over any alphabet",
  "test_border_array and test_period check only that the value is a border or a period, not that it is the longest or smallest, on binary strings of length <= 12; primitivity is not tested.",
  ["src/core.rs"], [("failure function","src/core.rs: border_array"),("period","src/core.rs: smallest_period"),("primitivity","src/core.rs: is_primitive")],
  [("length","current border candidate plus one","src/core.rs: border_array")], ["core::border_array","core::smallest_period","core::is_primitive"])

p("C19", "The Lyndon conjugate is a smallest rotation; all rotations are listed once",
  "For every non-empty string, the reported rotation start lies inside the string and the rotation starting there is lexicographically smallest among all rotations. Enumerating the rotations yields as many strings as the string has positions, the i-th of them being the rotation that starts at position i.",
  ["inputs"], "every non-empty string over any ordered alphabet, primitive or not",
  "test_lyndon_conjugate uses sentinel-terminated (hence primitive) binary strings of length <= 12; the enumeration of rotations is not tested.",
  ["src/core.rs"], [("Lyndon factor of the doubled text","src/core.rs: lyndon_conjugate"),("rotation iterator","src/core.rs: ConjugateIterator")],
  [("m_pos","next rotation","src/core.rs: ConjugateIterator")], ["core::lyndon_conjugate","core::ConjugateIterator"])

p("C20", "The Lyndon word generator emits every Lyndon word once, in order",
  "For every maximum length and alphabet size at least one, the generator emits exactly the Lyndon words of length between 1 and the maximum over that alphabet, each once, in lexicographic order, and then ends and stays ended. The tool writes each of them on a line of its own using the letters from 'a' on.",
  ["inputs","configurations","histories"], "every maximum length and alphabet size, every number of requests",
  "The generator and its tool have no test.",
  ["src/core.rs","src/bin/lyndonwords.rs"], [("Duval's successor","src/core.rs: LyndonWordGenerator::next"),("output","src/bin/lyndonwords.rs: main")],
  [("m_stack","the last word emitted","src/core.rs: LyndonWordGenerator")], ["core::LyndonWordGenerator","lyndonwords stdout and -o file"])

p("C21", "The enumerators list every string of the requested kind exactly once",
  "The enumeration tool lists, for every length from the minimum to the maximum, all strings of that length over the first letters of the alphabet in lexicographic order, each once, and refuses parameters outside its documented ranges. The binary string generator lists all binary strings of its length in lexicographic order, each once, and then ends. The k-mer generator lists all strings of length 8 over four letters, each once.",
  ["inputs","configurations","histories"], "every alphabet size, length range and number of requests",
  "None of the enumerators has a test.",
  ["src/bin/enumerate.rs","src/bin/generator_kmer.rs","src/core.rs"], [("odometer","src/bin/enumerate.rs: enumerate_for_length"),("rank to bits","src/core.rs: BinaryStringGenerator::next"),("number to digits","src/bin/generator_kmer.rs: main")],
  [("indices","odometer digits","src/bin/enumerate.rs"),("m_rank","rank of the next string","src/core.rs: BinaryStringGenerator")], ["enumerate stdout and exit status","core::BinaryStringGenerator","generator_kmer stdout"])

p("C22", "The morphic words are the iterates of their defining morphisms",
  "For every k, the k-th Fibonacci, Tribonacci, Thue-Morse, period-doubling and ternary Thue-Morse word is the k-fold image of the letter a under its defining morphism, and the k-th Lyndon factor of the infinite Fibonacci word is the k-fold image of ab under its morphism. Their lengths follow the corresponding recurrences, which the number functions return, and each word is a prefix of the next one where the morphism prolongs a.",
  ["inputs","configurations"], "every k (up to memory), library and tool, every word name",
  "Tests list the first 4 to 7 words literally and compare two of the families with their morphism for k < 10; the tool's name dispatch is not tested.",
  ["src/word.rs","src/bin/word.rs"], [("direct constructions","src/word.rs: fibonacci_word, thuemorse_word"),("morphism iteration","src/word.rs: iterate_2morphism, iterate_general_morphism, iterate_general_morphism_with_startsymbol"),("numbers","src/word.rs: fibonacci_number, tribonacci_number"),("dispatch","src/bin/word.rs: main")],
  [("source/target","read and write heads","src/word.rs")], ["stringology::word functions","word stdout and -o file"])

p("C23", "Paperfolding, power-of-two and Kolakoski words obey their defining rules",
  "For every k, the character at position n >= 1 of the k-th paperfolding word (of length 2^(k+1)) is one exactly if the odd part of n is 1 modulo 4, the quaternary form (of length 2^k) packs pairs of its bits as a=00, b=01, c=10, d=11, and position n >= 1 of the k-th power-of-two word (of length 2^k) is b exactly if n is a power of two and a otherwise. The zeroth Kolakoski word is two twos, and the run lengths of each further Kolakoski word (over a=1, b=2) spell the preceding one.",
  ["inputs","configurations"], "every k (up to memory) and every position, library and tool",
  "Tests list the first 100 characters of two of these words; the power-of-two word has no test, no test looks at the last character.",
  ["src/word.rs","src/bin/word.rs"], [("in-place expansion","src/word.rs: quaternary_paperfolding_word, quaternary_to_binary"),("bit test","src/word.rs: power2_sequence"),("run expansion","src/word.rs: kolakoski_word")],
  [("source/target","read and write heads","src/word.rs: kolakoski_word")], ["stringology::word functions","word stdout and -o file"])

p("C24", "De Bruijn words contain every binary word exactly once",
  "For every k, the k-th binary de Bruijn word has length 2^(k+1), and read cyclically it contains every word of length k+1 over a and b exactly once. The companion necklace test accepts a string exactly if the string is a prefix of a necklace, that is, of a string that is smallest among its own rotations.",
  ["inputs"], "every k (up to memory); every non-empty byte string for the necklace test",
  "test_binary_debrujin_word checks only that no window occurs twice, not that all occur, so a word that is too short passes; the necklace test is checked on twelve strings.",
  ["src/word.rs","src/bin/word.rs"], [("online successor rule","src/word.rs: binary_debruijn_word"),("prefix-of-necklace scan","src/word.rs: is_necklace")],
  [("word","the last k+1 characters","src/word.rs: binary_debruijn_word")], ["word::binary_debruijn_word","word::is_necklace","word -n binary-de-brujin"])

p("C25", "Random text generators respect the requested length and alphabet",
  "Every string written by the random string tool has exactly the requested length, consists of alphanumeric characters only, and uses at most the requested number of distinct characters when that number is not zero. Every text of the library's test text generator ends with its only zero byte and otherwise uses the symbols 1 to 2^b for the configured number of bits b; the generator ends after half of its range, and its r-th text spells the base-2^b digits of r without the lowest and the highest incomplete one, lowest first.",
  ["inputs","configurations","schedules"], "every length, alphabet size, range and bit width, and every outcome of the random source",
  "No test checks the generator's own contract; the tool has no test.",
  ["src/bin/randomstring.rs","src/core.rs"], [("rejection of new characters","src/bin/randomstring.rs: main"),("digits of the round number","src/core.rs: RandomStringGenerator::next")],
  [("charset","characters used so far","src/bin/randomstring.rs")], ["randomstring stdout and -o file","core::RandomStringGenerator"])

p("C26", "The lex-parse search reports true and growing records",
  "Every line the lex-parse enumeration prints names two renamings of one and the same binary string of length 32 (with terminator) whose lex-parse factor counts differ by exactly the printed difference, the first having the fewer factors. The printed differences never decrease, and of the strings examined, in the order of the numbers they spell in binary (lowest digit first), exactly those are named whose difference is at least that of every string before them.",
  ["histories"], "every prefix of the (practically endless) output stream",
  "The program has no test; it never ends in practice.",
  ["src/bin/enumerate_lexparse.rs"], [("record keeping","src/bin/enumerate_lexparse.rs: main")],
  [("largest_difference","record so far","src/bin/enumerate_lexparse.rs: main")], ["enumerate_lexparse stdout"])

p("C27", "A tool that could not write its whole output does not report success",
  "If the destination of a tool's output - standard output or the file given for the output - stops accepting bytes at any point before the whole output is written, the tool ends with a failure status. Whatever was written before is a prefix of the output that the tool writes when nothing fails.",
  ["fault_sequences","inputs"], "every tool producing output, every number of bytes the destination accepts before it fails, every kind of destination",
  "No test runs a tool, and none makes a write fail.",
  ["src/io.rs","src/bin/word.rs","src/bin/randomstring.rs","src/bin/lyndonfactorization.rs"], [("explicit flush at the end","src/bin/*.rs: main"),("buffered factor file","src/bin/lyndonfactorization.rs: main")],
  [("writer buffer","bytes accepted but not yet delivered","std::io::BufWriter, std::io::Stdout")], ["exit status and delivered bytes of all tools"])

p("C28", "Reports and redirected outputs are faithful",
  "Naming an output file writes there exactly the bytes that would otherwise go to standard output, replacing previous content. Every RESULT line names the input file (none for standard input), the number of bytes analysed (counting the terminator where the tool appends one), the options in effect and the algorithm (where the tool has them), and the reported values depend only on the analysed bytes and options - not on the file's name, the position of options or the log level.",
  ["inputs","configurations"], "every tool, every input, every combination of -i, -o, log level and previous file content",
  "No test runs a tool or looks at a RESULT line.",
  ["src/io.rs","src/core.rs","src/bin/lyndonfactorization.rs","src/bin/count_r.rs"], [("output selection","src/io.rs: stream_or_stdout"),("name reporting","src/core.rs: get_filename, stringopt_stropt"),("RESULT lines","src/bin/*.rs: main")],
  [], ["stdout, -o file"])

p("C29", "An unreadable input is never reported as a successful result",
  "If the input of a tool cannot be opened or reading it fails, the tool ends with a failure status instead of presenting the result for a shorter or empty input. Reading that is merely interrupted or delivers the bytes in small pieces does not change any result.",
  ["fault_sequences","inputs"], "every tool with an input, every point at which reading fails, is interrupted or is fragmented",
  "No test makes a read fail.",
  ["src/io.rs","src/core.rs","src/bin/rle.rs","src/bin/mtf.rs","src/bin/escape.rs","src/bin/count_runs.rs"], [("byte-wise reading","src/io.rs: read_char"),("end-of-input detection","src/core.rs: number_of_runs; src/bin/rle.rs; src/bin/mtf.rs; src/bin/escape.rs")],
  [], ["exit status of all tools on failing inputs","core::number_of_runs and io::read_char on failing readers"])

p("C30", "The escape, BWT, move-to-front, run-length pipeline is lossless",
  "For every byte string, piping it through escaping of the zero byte, the terminated BWT, move-to-front and run-length encoding yields an output from which undoing the four steps in reverse order recovers the byte string. No stage refuses the output of the stage before it.",
  ["inputs","configurations"], "every byte string including zero bytes, long runs and all byte values, with every admissible escape configuration",
  "No test combines tools; the README documents the first two stages of the pipeline.",
  ["src/bin/escape.rs","src/bin/bwt.rs","src/bin/mtf.rs","src/bin/rle.rs"], [("stage composition through pipes","README.md: CAVEATS")],
  [], ["stdout of the last stage of real process pipelines"])

p("C31", "A tool needs and changes nothing but its input and its output",
  "Running a tool, whether it succeeds or fails, changes, creates and removes no file other than the output file that was named (input and output being different files). It needs no more than to read its input and to write its output: it gives the same result and status when the input may only be read, when the working directory may not be written, for an unprivileged user, and whatever the environment variables, the locale and the working directory are.",
  ["inputs","configurations"], "every tool, every input and option, every way to name the input and the output, every set of file permissions, every environment",
  "No test runs a tool, let alone looks at the files around it.",
  ["src/io.rs","src/bin/lyndonfactorization.rs","src/bin/count_z.rs","src/bin/count_lexparse.rs"],
  [("opening the input for reading","src/io.rs: file2byte_vector, stream_or_stdin"),("opening the output","src/io.rs: stream_or_stdout"),("factor files","src/bin/count_z.rs, count_lexparse.rs, lyndonfactorization.rs: main")],
  [], ["all files around a run, status and output of all tools"])

p("C32", "Results of library calls depend on their arguments only",
  "The answer of a library function depends on its arguments alone: not on the calls made before (of it or of other functions, with other arguments or the same, refused or not), not on calls that other threads make at the same time, and not on the generators that are alive. A generator (LyndonWordGenerator, BinaryStringGenerator, RandomStringGenerator, ConjugateIterator) gives the elements of its own sequence from the first on, however requests to several of them interleave and whenever others are created and dropped, and stays ended. A file that is read again is read as it then is.",
  ["histories","schedules","inputs"], "every history of library calls and generator steps, by one thread or several, with every argument",
  "The tests call each function in a fixed order from one place and run each generator to its end, alone.",
  ["src/core.rs","src/word.rs","src/io.rs"],
  [("generators","src/core.rs: impl Iterator for RandomStringGenerator, LyndonWordGenerator, BinaryStringGenerator, ConjugateIterator"),("functions","src/core.rs, src/word.rs"),("reading a file","src/io.rs: file2byte_vector")],
  [], ["answers of library calls in histories of calls","elements of generators"])

p("C33", "A command line is understood as a whole or refused before anything happens",
  "Every tool with options understands each of its options however it is spelt (short or long name; the value as the next word, attached, or after an equals sign; several short options in one word), in every order; an option that is left out has its documented default, that is, the run is the same as if the default had been stated; the list options (escape's symbols, the attractor positions) collect their values from all occurrences; the enumeration tool takes its two or three numbers in order. Every other command line - an unknown, misspelt or abbreviated option, a single-valued option or switch given twice, a missing, malformed or out-of-range value, a missing mandatory option, a word that belongs to no option and is no number the tool asks for - is refused with a failure status, nothing on standard output and no file created or changed. Asking for help or the version succeeds and does nothing else.",
  ["inputs","configurations"], "every tool with options, every sequence of words on its command line",
  "No test runs a tool with a command line.",
  ["src/bin/bwt.rs","src/bin/escape.rs","src/bin/is_stringattractor.rs","src/bin/word.rs","src/bin/lyndonwords.rs","src/bin/randomstring.rs","src/bin/rle.rs","src/bin/entropy.rs"],
  [("declaration of the options","src/bin/*.rs: struct Args"),("reading the command line before anything is opened","src/bin/*.rs: main"),("names of the words","src/bin/word.rs: enum WordName")],
  [], ["status, standard output and files of all tools with options"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties")
