"""Which proofs decide which property."""
TECH = 'contract-based deductive verification of the LLVM IR of the real functions (own VC generator, z3)'
COMMON = 'Trusted: clang front end, the VC generator in vc/, z3, and the stated contracts of external (libstdc++/libc/kernel) functions.'
SAFETY = r'^(memory|arith|frame|requires|termination|invariant|unwind|exception|unreachable|trap|page-lock)@|terminated|within'
PLAN = {
 'C01': dict(units=[('http_in.cpp', 'http_.*', dict(only=SAFETY))],
   note='Unbounded: all inputs, buffer sizes and iterations of every item reader, with the scanning loops under their own contracts.'),
 'C02': dict(units=[('http_in.cpp', 'http_.*', dict(only=r'^ensures@'))],
   note='Unbounded: postconditions of every item reader over all inputs and reader states. Header value content is specified as printable text, not as an exact function of the input.'),
 'C18': dict(units=[('ascii.cpp', 'ascii_.*')],
   note='Unbounded: all 256 byte values; string pairs of any length, limit and case rule, terminated or limited.'),
 'C03': dict(units=[('http_out.cpp', 'http_.*')],
   note='Unbounded: all texts, lengths, writer states and every point at which the sink stops accepting bytes.'),
 'C04': dict(units=[('http_res.cpp', 'http_.*')],
   note='Unbounded: every resource text, buffer size and parameter name; strlen, strchr and strncmp by contract.'),
 'C05': dict(units=[('json_in.cpp', 'json_.*', dict(only=SAFETY))],
   note='Unbounded: every input, buffer size, nesting state and stream state; scanning loops, escapes, strings, numbers and tokens each under their own contract, callers checked against them.'),
 'C06': dict(units=[('json_in.cpp', 'json_.*', dict(only=r'^ensures@'))],
   note='Unbounded. String decoding is proved exactly up to the first escape, and each escape sequence by itself; the reader tolerates a comma in front of a closer.'),
 'C07': dict(units=[('json_out.cpp', 'json_.*')],
   note='Unbounded: every writer state (nesting up to the limit), text, length and point at which the sink or its flush fails; well-formedness of whole documents follows by induction over the per-call contracts.',
   assumptions=['printing a double with %.16lg yields 1 to 24 characters']),
 'C15': dict(units=[('timestamp.cpp', 'ts_.*')],
   note='Every date from 1970-01-01 to 32767-12-31, every time of day, every clock reading from the epoch on; readings before 1970 are not covered. Dates are split by century and month, the rest is linear integer arithmetic (z3, then cvc5).'),
 'C16': dict(units=[('line.cpp', '(line|table)_.*'), ('thread_id.cpp', '.*'), ('log.cpp', 'log_(debug|diag|test)_.*')],
   note='Unbounded in text lengths, fills, dump offsets and sink failures; line sizes 0, 17, 100 and 2048 stand for the template parameter. The layouts of log lines are checked over the contracts of the line they extend.',
   assumptions=['vsnprintf writes at most n bytes, ends them with a terminator and returns the length of the whole text or -1']),
 'C17': dict(units=[('log.cpp', 'log_(filter|put|move).*')],
   note='All severities, categories and settings; the log is checked over arbitrary line and filter types that record the calls they get.'),
 'C19': dict(units=[('streambuf.cpp', 'sb_.*')],
   note='Unbounded: every buffer, begin/end split, position, character and transfer length; the code of std::streambuf itself is verified along from the libstdc++ headers.'),
 'C21': dict(units=[('socket.cpp', 'sock_.*')],
   note='Every outcome of every system call, address lists of any length, every descriptor number; sockets start closed or owning a descriptor. TLS sockets add OpenSSL state and are not covered.',
   assumptions=['the system calls follow POSIX: a descriptor handed out is not in use, and close releases it whatever it returns']),
 'C28': dict(units=[('endpoint.cpp', 'ep_.*')],
   note='Every method, resource, path, configuration and file size, over the contracts of the HTTP streams (C01 to C03) and of the string comparison (C18). TLS endpoints and concurrent requests are not covered.',
   assumptions=['a file does not change between stat and read', 'stat and ifstream look at the path they are given; links inside the root may lead anywhere']),
 'C26': dict(units=[('tictactoe.cpp', 'ttt_.*')],
   note='Every well-formed position (marks, count, turn and verdict consistent), every move, every player; a superset of the reachable positions. The endpoint around the game and the move search are not covered.'),
 'C27': dict(units=[('connect4.cpp', 'c4_.*')],
   note='Every well-formed position (stones, sizes, count and turn consistent), every move, every player; a superset of the reachable positions. The endpoint around the game and the move search are not covered.'),
 'C22': dict(units=[('socket_buf.cpp', 'ssb_.*'), ('socket.cpp', 'xfer_.*')],
   note='Every byte value, transfer length and outcome of each send and receive; the code of std::streambuf itself is verified along from the libstdc++ headers.'),
}
NA = {
 'C29': 'quantifies over thread schedules; sequential function contracts over this C++ code have no permission or scheduler model to state it',
 'C30': 'quantifies over thread schedules and real time; not expressible as sequential function contracts',
 'C31': 'quantifies over thread schedules and the atomicity of the destination stream; not expressible as sequential function contracts',
 'C32': 'decided inside OpenSSL; the contracts that would carry it would all be assumed',
 'C33': 'no mechanism exists in the code (mapped pages are written back in any order), so there is no contract of the real functions that states it',
}
