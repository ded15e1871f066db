"""Single source of properties.jsonl."""
P = []
def p(id, title, statement, over, text, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state])))

p('C01', 'Reading HTTP never overruns the caller\'s buffer and always terminates',
  'Reading any item of an HTTP request or response (method, resource, protocol, status code, reason phrase, header name, header value, body) from an arbitrary byte sequence writes only inside the buffer of the size the caller gave, always leaves a terminated text of the reported length, and returns after finitely many steps. This holds at end of input, on non-ASCII bytes, for items longer than the buffer and for the smallest buffers.',
  'inputs', 'every input byte sequence, read position, stream state and buffer size (>= 1; >= 2 for the resource)',
  'tests read a dozen well-formed messages with roomy buffers; no test drives an item to exactly the buffer size, to end of input or to a hostile byte',
  'src/http.h src/i/http.i.h src/stream.h src/ascii.h', [('get_chars / get_bytes size checks', 'src/http.h'), ('peek_char non-ASCII guard', 'src/http.h')])
p('C02', 'The HTTP reader reports exactly what was received, in protocol order',
  'The HTTP reader refuses (with an exception and no other effect) any item other than the next one in protocol order, and otherwise advances to the right next item. The text it reports for an item is exactly the run of characters allowed for that item at the stream position; an item that does not fit, is malformed, is not followed by what the protocol demands (colon, CR LF) or contains bytes the protocol forbids leaves the stream flagged as failed rather than good.',
  'inputs histories', 'every input byte sequence and every prior reader state',
  'the tests sample a few messages; oversize, malformed and truncated ones, and out-of-order calls in every state, are not tried',
  'src/http.h src/i/http.i.h', [('assert_next/reset', 'src/http.h'), ('get_protocol, get_header_*', 'src/http.h')])
p('C03', 'The HTTP writer never lets an item\'s text break the message structure',
  'Whatever text the caller passes for a method, resource, protocol, status code, reason phrase, header name or header value, the bytes written for that item contain only characters allowed in it followed by exactly the separator the protocol prescribes, so no line break or additional header can be injected; items are refused out of protocol order; body bytes are written unchanged. A header name or value that is not entirely legal leaves the stream flagged as failed.',
  'inputs histories', 'every text and length, every writer state, every point at which the sink stops accepting bytes',
  'tests write a couple of clean messages; hostile text and failing sinks are not tried',
  'src/http.h src/i/http.i.h', [('put_chars predicates, put_crlf', 'src/http.h'), ('assert_next', 'src/http.h')])
p('C04', 'Splitting a resource and looking up its parameters stays inside the buffer',
  'Splitting a resource of the form path?name=value&... replaces exactly the first question mark and the following ampersands by terminators and touches nothing outside the buffer. Looking a parameter up returns either nothing or a pointer just behind "name=" of a parameter with exactly that name, never reading past the buffer.',
  'inputs', 'every terminated resource text, buffer size and parameter name',
  'four fixed resources are tested; empty parameters, trailing separators and prefix names are not',
  'src/http.h', [('split_resource / get_resource_parameter', 'src/http.h')])
p('C05', 'Reading JSON never overruns a buffer and always terminates',
  'Reading or skipping any JSON token or value from an arbitrary byte sequence writes only inside the caller\'s token buffer, leaves a terminated text in it, never touches memory outside its own working storage, and returns after finitely many steps, also when the input ends early or a string or number is longer than any buffer.',
  'inputs', 'every input byte sequence, token buffer size, nesting state and stream state',
  'tests parse small well-formed documents with large buffers only',
  'src/json.h src/i/json.i.h', [('get_or_skip_string / get_or_skip_number / get_digits bounds', 'src/json.h')])
p('C06', 'The JSON reader accepts a token only where the grammar allows it',
  'A token returned without a failure flag is allowed at that point of the enclosing array or object nesting: a name or the end of the object where a name is due and a value or the end of the array otherwise, closers only for the innermost open container, a colon behind every name, and a comma or the end of the container behind every element (a comma directly in front of a closer is tolerated, and values outside any container may follow one another). The reader\'s nesting bookkeeping mirrors the containers opened and not yet closed. Nulls and booleans are the ones in the input, the value of a number is computed from exactly the numeral in the input, the characters of a string are those in the input, and each escape sequence yields its character; a malformed, oversize or truncated item leaves the stream flagged as failed.',
  'inputs histories', 'every input byte sequence and every nesting state',
  'tests parse only documents that are valid',
  'src/json.h src/i/json.i.h', [('get_token expectation state', 'src/json.h')])
p('C07', 'The JSON writer emits only structurally well-formed documents',
  'The JSON writer refuses, by flagging the stream as bad and writing nothing, a value where a name is due and a name where a value is due, and flags as bad the closing of a container that is not the innermost open one; every other call appends exactly its own text, preceded by a comma exactly where one is due, so the accepted calls always spell a well-formed prefix of a document. Text handed over as a string or name is emitted unchanged between quotes. Once flagged, the stream accepts nothing more.',
  'inputs histories', 'every sequence of writer calls with every text, every failure point of the sink',
  'tests write a few documents in legal order',
  'src/json.h src/i/json.i.h', [('assert_value / assert_property and the level stack', 'src/json.h')])
p('C08', 'A persistent page is owned by at most one user at a time',
  'The page pool never hands out a page that is the header page or is still in use or is on its free list, and a released page is recorded exactly once; pages are reused before the file grows, and the file size always equals the number of pages in use plus free.',
  'inputs histories', 'every sequence of allocations and releases and every content of a well-formed pool file',
  'tests release pages in a couple of fixed orders and only look at the count',
  'src/vmem_pool.h src/vmem_linked.h src/vmem_page.h', [('alloc_page/free_page, free list', 'src/vmem_pool.h')])
p('C09', 'A locked page stays mapped at one address and sees its own file page',
  'A page that is locked is mapped, all holders of it see the same address, that address stays valid until the last holder lets go, and it maps exactly that page\'s position of the file. The page cache never maps the same page twice, never evicts a locked page, and refuses to give out a page rather than exceed its limit.',
  'inputs histories', 'every sequence of lock/unlock requests, page positions and cache limits',
  'tests use a few pages and cannot see an eviction of a locked page unless it happens to crash',
  'src/vmem_pool.h src/vmem_page.h', [('lock_page/unlock_page, lock counters', 'src/vmem_pool.h')])
p('C10', 'The persistent linked page list stays consistently linked',
  'Inserting, erasing, splicing and clearing keep the persistent doubly linked page list consistent: front and back are the ends, every neighbour link is mirrored by the opposite link, and exactly the requested pages are added or removed in the requested place. A list whose contents were spliced away is empty.',
  'inputs histories', 'every well-formed list and every operation position',
  'tests check a handful of fixed lists',
  'src/vmem_linked.h src/i/vmem_linked.i.h', [('insert/erase/splice relinking', 'src/vmem_linked.h')])
p('C11', 'The persistent list behaves as a sequence',
  'Inserting into or erasing from a persistent list at any position changes exactly that position: all other items keep their order and values, counts on every page and in total agree, and no page holds more items than fit or stays behind empty.',
  'inputs histories', 'every page fill, every insert/erase position, every balance policy and item size',
  'tests use one item type and a few insertion orders',
  'src/vmem_container.h src/vmem_list.h', [('insert_nostate/erase_nostate, balance_split, balance_merge', 'src/vmem_container.h')])
p('C12', 'Iterators over persistent containers visit each item once and stay in range',
  'Advancing or retreating an iterator over a persistent container moves to the adjacent item, across page boundaries too; begin and end behave as the two limits, and dereferencing a non-end iterator yields a pointer into the page that holds the item.',
  'inputs histories', 'every well-formed chain of pages and iterator position',
  'tests iterate over a few fixed lists', 'src/vmem_iterator.h src/vmem_container.h', [('inc/dec/deref', 'src/vmem_iterator.h')])
p('C13', 'The persistent map is a map ordered by key',
  'Keys in every page of a persistent map stay strictly ascending, looking up a key finds its item exactly when it is present and otherwise the place where it belongs, and inserting an existing key changes nothing.',
  'inputs histories', 'every well-formed page content, fill and key',
  'tests insert fixed key sequences', 'src/vmem_map.h', [('find2 binary search, insert, erase, update_key_levels', 'src/vmem_map.h')])
p('C14', 'A persistent string stream reads back exactly what was written',
  'Reading through the stream interface of a persistent string yields exactly its characters in order, bytes above 127 included, and end of input exactly at the end; writing appends exactly the given characters.',
  'inputs', 'every string content, page fill and byte value', 'tests write and read short ASCII text', 'src/vmem_string.h', [('underflow/overflow', 'src/vmem_string.h')])
p('C15', 'Calendar time conversion is the proleptic Gregorian calendar',
  'For every clock reading from the epoch (1970) on, a timestamp\'s year, month and day are the Gregorian date of that day, leap years and century rules included, its hours, minutes, seconds and fraction are within their ranges and make up the time of that day exactly, and two timestamps are equal or ordered exactly as their instants.',
  'inputs', 'every day and every time of day from the epoch on that the clock can represent', 'tests check a handful of dates', 'src/timestamp.h', [('reset_date/reset_time/get', 'src/timestamp.h')])
p('C16', 'Log and table lines never overrun their fixed buffer',
  'Composing a log, diagnostic or table line out of any sequence of pieces of any length, formatted text and binary dumps included, never writes outside the line\'s fixed-size buffer and never reports more characters than the buffer holds; text that does not fit is cut off, and what is flushed is exactly the text composed, ended by a line break, once, also when the line has been moved.',
  'inputs histories', 'every sequence and length of pieces and every buffer fill', 'tests write short lines that fit', 'src/table.h src/i/table.i.h src/log.h', [('put_any/put_anyv/put_binary/put_time', 'src/table.h')])
p('C17', 'Log filtering admits exactly the configured severities and categories',
  'A log line, binary dump or blank line is put to its destination exactly when there is no filter or the filter, asked about exactly its category and severity, admits it; it carries exactly the category, severity, tag and content that were passed. The standard filter admits exactly the severities at least as high as its current setting, reports its setting, and a copy or a moved log keeps it.',
  'inputs configurations', 'every category, severity and filter setting', 'tests use one filter', 'src/log.h src/i/log.i.h', [('is_enabled', 'src/log.h')])
p('C18', 'Character classes and comparisons are exact for every byte',
  'Every character class (digit, hex, letter, space, control, printable, token, separator, JSON space and string content) contains exactly its defining characters for all 256 byte values, case conversion is its own table, hex values are right, and string comparison agrees with the definition for every pair of strings, both case rules and every length limit without reading past a terminator.',
  'inputs', 'all 256 bytes; all pairs of strings and limits', 'tests compare a few strings', 'src/ascii.h', [('is_* and are_equal', 'src/ascii.h')])
p('C19', 'A stream over a caller\'s buffer is confined to that buffer',
  'A stream buffer laid over caller-provided memory reads exactly the readable part and writes exactly the writable part of it, reports end of input and refuses further output at the limits, and keeps its positions when moved.',
  'inputs histories', 'every buffer and begin/end split', 'tests read and write a few characters', 'src/buffer_streambuf.h src/stream.h', [('constructor setg/setp, move', 'src/buffer_streambuf.h')])
p('C20', 'Rolling output files are named and switched within limits',
  'A rolling file output composes its file names within its fixed path buffer for every configured path, and moves on to a new file exactly when the configured size or duration is reached, without losing characters.',
  'inputs configurations histories', 'every path length, size limit and duration', 'tests only move objects around', 'src/multifile.h src/i/multifile.i.h', [('append_path / reopen', 'src/multifile.h')])
p('C21', 'A socket closes exactly the descriptor it owns, once',
  'Every socket object owns at most one descriptor; moving a socket moves that ownership and leaves the source closed, destroying or closing a socket closes its descriptor exactly once, and no system call is ever issued on a descriptor the socket does not own.',
  'histories fault_sequences', 'every sequence of open, close, move and accept with every system-call outcome', 'tests exercise the success paths over loopback', 'src/socket.h src/i/socket.i.h', [('fd ownership, close, move constructors', 'src/socket.h')])
p('C22', 'A socket stream delivers bytes unchanged and in order',
  'Characters put into a socket stream are sent in order, each exactly once, and characters received are delivered in order, each exactly once and with its value unchanged for all 256 byte values; an error or end of connection is reported as end of file and never as data.',
  'inputs fault_sequences', 'every byte value and every outcome (short, failed, closed) of each send and receive', 'tests send short ASCII text over loopback', 'src/socket.h', [('socket_streambuf underflow/overflow/sync', 'src/socket.h')])
p('C23', 'The HAT controller receives exactly the register writes requested',
  'Register writes and block transfers to the I2C controller address exactly the requested register with the requested bytes in the requested order, for every register and value, and any transfer failure is reported instead of returning stale data.',
  'inputs fault_sequences', 'every register, value, block size and ioctl outcome', 'no test: there is no hardware in the test suite', 'src/gpio_smbus.h src/i/gpio_smbus.i.h', [('put/get byte, word, block', 'src/gpio_smbus.h')])
p('C24', 'Servo and motor outputs stay inside their configured pulse range',
  'For every duty-cycle or position percentage requested and every configured pulse-width range and frequency, the pulse produced lies within the configured range, grows with the request, and the autoreload value programmed is never zero.',
  'inputs configurations', 'every request, range and frequency', 'no test: there is no hardware in the test suite', 'src/gpio_pwm.h src/gpio_smbus_pwm.h src/gpio_smbus_servo.h src/gpio_smbus_motor.h', [('duty cycle computations', 'src/gpio_pwm.h')])
p('C25', 'Distance measurement converts echo times correctly',
  'A measured echo time is converted into a distance with the configured speed of sound for every supported unit, a missing echo yields the documented "none" value, and the measurement loop ends within its maximum time.',
  'inputs fault_sequences', 'every echo timing and unit', 'no test', 'src/gpio_ultrasonic.h', [('measure_* computations', 'src/gpio_ultrasonic.h')])
p('C26', 'The tic-tac-toe referee never misjudges a board',
  'A tic-tac-toe game accepts a move exactly when the game is not over, it is that player\'s turn and the cell exists and is empty; it declares a win exactly when the mover has three in a row and a draw exactly when the board is full without one; a refused move changes nothing, and undoing the last move restores the previous position.',
  'inputs histories', 'every reachable position and every move', 'no test covers the samples', 'samples/tictactoe/game.h', [('board accept/undo, winner check', 'samples/tictactoe/game.h')])
p('C27', 'The connect-four referee never misjudges a board',
  'A connect-four game accepts a move exactly when the game is not over, it is that player\'s turn and the cell is the lowest free one of an existing column; it declares a win exactly when four of the mover\'s stones are in line through the new one and a draw exactly when the board is full without one; a refused move changes nothing, and undoing the last move restores the previous position.',
  'inputs histories', 'every position and move', 'no test covers the samples', 'samples/connect4/game.h', [('board accept/undo, winner check', 'samples/connect4/game.h')])
p('C28', 'The HTTP endpoint serves only files under its configured root',
  'A request for a static file is answered with a file only when its path is the resource below the configured root directory and no part of the resource leads up; the file is announced with its exact size and the content type of its extension and sent whole, every other outcome is one complete error response; each request reaches exactly the handler that its method and resource select, without leaving the buffers for its parts, and shutdown completes with the last request in progress.',
  'inputs configurations', 'every request resource and configuration', 'one happy-path request is tested', 'src/endpoint.h src/i/endpoint.i.h', [('process_file_request, get_content_type_from_path', 'src/endpoint.h')])
p('C29', 'Concurrent endpoint requests and shutdown do not race',
  'Requests served concurrently do not interfere, and after shutdown is requested every request in progress completes and no new one is accepted.',
  'schedules', 'every interleaving of request threads and shutdown', 'one schedule per run', 'src/endpoint.h', [('_requests_in_progress and the shutdown handshake', 'src/endpoint.h')])
p('C30', 'The software PWM keeps its period while its settings change concurrently',
  'The software PWM thread emits pulses of the configured width and period and reacts to changes and to shutdown under every interleaving.',
  'schedules', 'every interleaving of the pulse thread and its controller', 'no test', 'src/gpio_pwm_emulator.h', [('pulse thread', 'src/gpio_pwm_emulator.h')])
p('C31', 'Log lines written concurrently are not interleaved',
  'Lines composed by different threads reach a shared log destination whole.',
  'schedules', 'every interleaving of logging threads', 'no test', 'src/log.h src/table.h', [('one line object per call', 'src/table.h')])
p('C32', 'Data on a TLS connection is confidential and authenticated as configured',
  'A secure socket exchanges application data only after a successful handshake with the configured certificates and verification.',
  'inputs fault_sequences', 'every peer behaviour', 'tests use one self-signed pair', 'src/openssl_socket.h', [('handshake in constructor/accept', 'src/openssl_socket.h')])
p('C33', 'A pool file survives a crash at any point',
  'After a crash at any point of an operation on a persistent container the pool file can be reopened with a consistent prior state.',
  'crash_points', 'every crash point of every operation', 'no test crashes', 'src/vmem_pool.h src/vmem_container.h', [('none: mapped pages are written back by the kernel in any order', 'src/vmem_pool.h')])
