import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=(),state=(),hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
ENC=["lib/lib.c","lib/arch/generic/enc_head.c","lib/arch/generic/enc_tail.c","lib/arch/generic/32/enc_loop.c","lib/arch/generic/64/enc_loop.c","lib/arch/*/enc_loop*.c","lib/arch/*/enc_reshuffle.c","lib/arch/*/enc_translate.c","lib/tables/tables.c","lib/tables/table_enc_12bit.h"]
DEC=["lib/lib.c","lib/arch/generic/dec_head.c","lib/arch/generic/dec_tail.c","lib/arch/generic/32/dec_loop.c","lib/arch/*/dec_loop.c","lib/arch/*/dec_reshuffle.c","lib/tables/table_dec_32bit.h"]
p("C01","One-shot encoding equals RFC 4648 for every input",
  "Encoding any byte string in one call produces exactly the RFC 4648 base64 text of that string, padding included, and reports exactly its length. The text is the same whichever codec is used, in every build variant, on every supported architecture, and wherever the buffers are aligned.",
  ["inputs","configurations"],"all byte strings; all codecs; x86-64, i686, AArch64, ARM and big-endian builds, with and without inline assembly",
  "The tests encode a handful of strings plus one fixed table; each of the 4096 table entries, each vector lane and each unrolled loop body sees only sampled data, and only the codecs of the host CPU run at all.",
  ENC,[("12-bit lookup table and scalar loops","lib/arch/generic"),("vector reshuffle/translate kernels and unrolled loops","lib/arch/*/enc_loop*.c"),("tail and padding","lib/arch/generic/enc_tail.c, lib/lib.c base64_stream_encode_final")],["base64_encode"])
p("C02","Streaming encode does not depend on how the input is cut",
  "However a byte string is split over successive streaming encode calls, empty pieces included, the concatenated output followed by that of finalisation is exactly the one-shot encoding of the whole, and every call reports exactly the number of bytes it produced.",
  ["inputs","histories"],"all byte strings, all sequences of cuts, every reachable stream state at the start of a call, all codecs and builds",
  "The tests stream a few fixed texts with fixed block sizes; a carry handed over in one particular position with one particular kernel and length is not sampled.",
  ENC,[("carry/bytes hand-over between calls","lib/arch/generic/enc_head.c, enc_tail.c"),("finalisation","lib/lib.c")],["base64_stream_encode","base64_stream_encode_final"],
  [("bytes","position within the 3-byte group","struct base64_state"),("carry","bits waiting for the next call","struct base64_state")])
p("C03","Well-formed base64 decodes to exactly the bytes it stands for",
  "Every well-formed base64 text, padded as RFC 4648 requires, is accepted and decodes to exactly the bytes it stands for, with the exact length reported, in every codec and build variant.",
  ["inputs","configurations"],"all well-formed texts up to the bound; all codecs and builds",
  "The tests decode encodings of a few fixed strings; most alphabet-character/lane/loop-body combinations and the hand-over from vector loop to tail are never seen, and codecs the host lacks never run.",
  DEC,[("32-bit lookup tables","lib/tables"),("vector decode kernels","lib/arch/*/dec_loop.c, dec_reshuffle.c"),("tail state machine","lib/arch/generic/dec_tail.c")],["base64_decode"])
p("C04","Decoding accepts exactly the RFC 4648 grammar",
  "Decoding any string in one call succeeds exactly when the string is a sequence of complete groups of alphabet characters of which only the last may be padded (with one or two '='), and fails for everything else, including every character outside the alphabet, misplaced padding and truncated groups. The bytes delivered before the failing character are the right ones, and verdict and output agree between all codecs and builds.",
  ["inputs","configurations"],"all strings over all 256 byte values up to the bound; all codecs and builds",
  "The tests try each byte value at a few positions of one text; validity is decided by different code for each lane, loop body and tail position, and for each codec.",
  DEC,[("vector range checks","lib/arch/*/dec_loop.c"),("scalar table lookups","lib/arch/generic"),("end-of-text and padding state machine","lib/arch/generic/dec_tail.c"),("truncation test","lib/lib.c base64_decode")],["base64_decode"])
p("C05","Streaming decode verdict and output do not depend on the cuts",
  "However a text is split over successive streaming decode calls, each call's verdict and output are those of decoding the text as a whole up to that point. Once a call has reported an error or the padded end of the text, every later call that brings more characters fails and delivers nothing.",
  ["inputs","histories"],"all strings, all sequences of cuts, every reachable stream state, all codecs and builds",
  "The tests stream a few valid texts with fixed block sizes; no test continues after an error, or cuts invalid text, or cuts inside padding.",
  DEC,[("bytes/carry/eof hand-over between calls","lib/arch/generic/dec_head.c, dec_tail.c")],["base64_stream_decode"],
  [("eof","end or error already seen","struct base64_state"),("bytes","position within the 4-character group","struct base64_state"),("carry","bits waiting","struct base64_state")])
p("C06","Decoding an encoding returns the original bytes",
  "For every byte string, encoding it and decoding the result returns the original bytes and a success verdict, whichever codecs perform the two halves.",
  ["inputs","configurations"],"all byte strings up to the bound; all pairs of codecs within a build",
  "The tests round-trip a few strings with the same codec on both sides.",
  ENC+DEC[1:],[("encoder and decoder kernels","lib/arch/*")],["base64_encode","base64_decode"])
p("C07","Encoding stays inside the buffers it was given",
  "Encoding, one-shot or streaming, never reads a byte outside the given input and never writes a byte beyond what it reports as produced (the full padded text for a whole encoding), so an output buffer of exactly that size is enough.",
  ["inputs","histories","configurations"],"every input length and every pending-byte state up to the bound, all codecs and builds",
  "The tests use generous buffers; over-reads and over-writes by a vector store depend on the exact length modulo block and unroll sizes, and do not change the results the tests compare.",
  ENC,[("loop guards that leave room for full-vector loads and stores","lib/arch/*/enc_loop*.c"),("alignment prologue of the AVX2 encoder","lib/arch/avx2/enc_loop.c")],["base64_encode","base64_stream_encode"])
p("C08","Decoding stays inside the buffers it was given",
  "Decoding, one-shot or streaming, valid or invalid, never reads a byte outside the given input and never writes more than three quarters of the characters received, so an output buffer of that size is enough.",
  ["inputs","histories","configurations"],"every input length and content, every pending-character state up to the bound, all codecs and builds",
  "The tests use generous buffers and mostly valid text; whether a full-vector store still fits depends on the length, on how many characters are left, and on where the text is invalid.",
  DEC,[("loop guards that leave room for full-vector loads and stores","lib/arch/*/dec_loop.c")],["base64_decode","base64_stream_decode"])
p("C09","Automatic codec choice is safe and the best available",
  "With no codec forced, the library picks the fastest compiled-in codec that both the processor and the operating system support as reported by the hardware, and never one whose instructions might fault. The choice is made for every possible answer of the feature-detection instructions.",
  ["configurations","inputs"],"every value the CPU-identification and OS-state instructions can return, on 64- and 32-bit x86, and the compile-time choice elsewhere",
  "The tests run on one CPU and so see one answer of the detection instructions.",
  ["lib/codec_choose.c","lib/codecs.h"],[("feature-bit and OS-state tests","lib/codec_choose.c codec_choose_x86")],["base64_encode with flags 0"])
p("C10","A forced codec is honoured, and a missing one is reported",
  "A call or stream that forces one codec uses exactly that codec, whatever calls were made before in the process; a call that forces none uses the automatic choice or keeps a codec forced earlier. If the forced codec is not compiled in, decoding returns -1, encoding produces nothing, and the reported output length is 0.",
  ["histories","configurations"],"all sequences of up to three calls with any combination of flags; all codecs compiled in or not",
  "The tests force each codec once per process section in a fixed order, and skip those not built.",
  ["lib/codec_choose.c","lib/lib.c"],[("global codec table and when it is rewritten","lib/codec_choose.c, lib/lib.c"),("stubs","lib/codec_choose.c")],["base64_encode","base64_decode","base64_stream_*"],
  [("codec","the process-wide selected codec","lib/lib.c")])
p("C11","Streams are independent and initialisation forgets the past",
  "After initialisation a stream's behaviour depends only on what is fed to it afterwards: not on the previous content of the state object, on other streams used in between, or on earlier one-shot calls. A call modifies nothing but the state, output buffer and length it was handed.",
  ["histories","inputs"],"every previous content of the state object; interleavings of two streams and one-shot calls",
  "The tests use one freshly declared state at a time.",
  ["lib/lib.c","lib/arch/generic/enc_head.c","lib/arch/generic/dec_head.c"],[("state initialisation","lib/lib.c base64_stream_encode_init, base64_stream_decode_init")],["base64_stream_*"])
p("C12","Concurrent use from several threads is safe, including first use",
  "Threads that encode and decode concurrently, each with its own buffers and streams and forcing no codec, each get the result they would get alone, even when they race to make the library's very first call.",
  ["schedules"],"all interleavings of two threads' accesses to shared memory during initialisation and first calls",
  "The tests are single-threaded.",
  ["lib/codec_choose.c","lib/lib.c"],[("lazily filled global codec table","lib/codec_choose.c")],["base64_encode","base64_decode"],
  [("codec","the process-wide selected codec","lib/lib.c")])
p("C13","The OpenMP build computes the same results as the serial build",
  "For every input, a library built with OpenMP gives the same verdict, output bytes and output length as the serial library, for any number of threads and any schedule, and its threads do not race.",
  ["inputs","schedules","configurations"],"all inputs up to the bound above the parallel threshold; 1..4 threads",
  "The tests' inputs are below the parallel threshold or valid, and run on one machine's thread count.",
  ["lib/lib_openmp.c"],[("chunk partition and recombination","lib/lib_openmp.c")],["base64_encode","base64_decode"],hook="threshold of the parallel path")
p("C14","The OpenMP partition covers every length without gap or overflow",
  "For every input length the platform can address and every team size, the OpenMP build hands out chunks that are disjoint, cover the input exactly, start at whole groups, and write to exactly the places of the output where their text belongs.",
  ["inputs","configurations"],"every length and every team size, on 32- and 64-bit platforms",
  "The tests use two small lengths; overflow needs inputs of a gigabyte and more.",
  ["lib/lib_openmp.c"],[("len/offset arithmetic","lib/lib_openmp.c")],["base64_encode","base64_decode"])
p("C15","The command-line tool encodes any input with correct line wrapping",
  "The base64 program, encoding, writes exactly the RFC 4648 text of its input broken into lines of the requested width (76 by default, none for 0), each ended by a newline, whatever the content, its length, and the way it arrives in pieces.",
  ["inputs","histories"],"all inputs, wrap widths and read sizes within the bound",
  "No test in the suite runs the program.",
  ["bin/base64.c"],[("line wrapping across buffer boundaries","bin/base64.c write_wrapped, encode")],["standard output of bin/base64"],hook="size of the I/O buffers")
p("C16","The command-line tool decodes and filters its input correctly",
  "The base64 program, decoding, ignores line ends and writes exactly the decoded bytes; with the ignore-garbage option it ignores every character that is neither in the alphabet nor '=' and decodes the rest, and without it any such character makes it fail with an error message after writing only a prefix of what precedes it. With the no-strip-newlines option a line end is such a character too. The result does not depend on how the input arrives in pieces. (Whether a text that ends inside a group is a failure is left open.)",
  ["inputs","histories"],"all inputs and read sizes within the bound",
  "No test in the suite runs the program.",
  ["bin/base64.c"],[("newline and garbage filters","bin/base64.c find_newline, find_garbage, decode")],["standard output and exit status of bin/base64"],hook="size of the I/O buffers")
p("C17","The command-line tool survives short writes and reports I/O failures",
  "Short reads, partial writes and interrupted writes never make the base64 program lose, duplicate or reorder data; a failing read, a write that keeps failing, or a failing allocation ends it with an error message and a failure status, having written only a prefix of the right output.",
  ["fault_sequences"],"all sequences of partial transfers and errors of the I/O calls within the bound",
  "No test in the suite runs the program, let alone with failing I/O.",
  ["bin/base64.c"],[("write loops, vector bookkeeping and error returns","bin/base64.c writev_retry, iov_append, write_stdout, writev (emulation)")],["exit status, standard output"],hook="size of the I/O buffers")
p("C18","The command-line tool obeys its options and rejects bad ones",
  "Every combination of the documented options (short, clustered, long and abbreviated) and operands selects the documented mode, filters, wrap width and input file, '-' meaning standard input; help prints the options and succeeds; an invalid or missing wrap value, an unknown option, an unreadable file or a surplus operand yields an error message, a failure status and no output.",
  ["inputs"],"all command lines within the bound",
  "No test in the suite runs the program.",
  ["bin/base64.c"],[("option parsing","bin/base64.c parse_opts, get_wrap, usage, main")],["exit status, standard output"])
p("C19","Encoding and decoding stay right however long the input is",
  "There is no length at which anything changes: for an input of any size, megabytes or gigabytes, one-shot or fed to a stream that holds a partial group, encoding produces the RFC 4648 text and decoding the bytes, the verdict and the length it stands for, wherever in the text an invalid character is, and no byte outside the input and output buffers is touched.",
  ["inputs","configurations"],"every length up to 2^46 bytes (2^30 with 32-bit addresses), all contents; all codecs; x86-64, i686, AArch64, ARM and big-endian builds, with and without inline assembly",
  "Tests feed at most a few kilobytes; round counters, skipped-round corrections and lengths that are truncated, overflow or lose a block only from some size on are out of their reach, and no unrolling bound covers them.",
  ENC+DEC,[("round counts and their corrections after an early exit","lib/arch/*/enc_loop*.c, lib/arch/*/dec_loop.c, lib/arch/generic"),("length bookkeeping","lib/arch/generic/*_head.c, *_tail.c, lib/lib.c")],["base64_encode","base64_decode","base64_stream_encode","base64_stream_decode"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
