#!/usr/bin/env python3
"""One table: properties.jsonl and MANIFEST.json are generated from it."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
IN, HI, SC, FA, CO, CR = 'inputs', 'histories', 'schedules', 'fault_sequences', 'configurations', 'crash_points'


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), na=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, state=state, observe=observe, na=na, note=note))


p('C01', 'Outgoing escaping is exact, reversible and bounded',
  'Escaping any byte string for the wire yields exactly that string with every 0x1a byte doubled and nothing else changed. '
  'The result is never longer than twice the input, the reported length is exact, and nothing outside the reported range is written and the input is not altered.',
  [IN], 'all byte strings up to the bound, all positions and counts of the escape byte',
  'No unit test targets the encoder; its scan/copy loop has boundary cases (leading, trailing, adjacent escapes, empty) for every length.',
  ['src/core/beast.c', 'src/core/beast.h'], [('scan for escape and copy in chunks', 'src/core/beast.c:BEAST_encode')],
  observe=['buffer and length handed to the transport'])
p('C02', 'Receiver stream decoding recovers exactly the well-formed frames',
  'Whatever bytes the receiver delivers and however they are split into reads, the decoder reports exactly the well-formed frames of the stream '
  '(escape byte, known type, type-specific length with doubled escapes), with correct type, 48-bit big-endian time stamp, signed level and payload, and a raw image that is byte-identical to the frame on the wire; unknown or damaged frames are skipped and decoding resumes at the next frame start. '
  'It never reads or writes outside its buffers, never loops without consuming input, and reports failure exactly when the input ends.',
  [IN, HI], 'all byte streams and all chunkings of them up to the bound, including arbitrary garbage and read failures at any point',
  'The unit tests use hand-written streams with a handful of splits; the property quantifies over all contents and all split points.',
  ['src/radarcape/rc-parser.c'], [('frame decoder', 'src/radarcape/rc-parser.c:decode'), ('resynchronisation', 'src/radarcape/rc-parser.c:synchronize'), ('buffer refill', 'src/radarcape/rc-parser.c:next')],
  [('input window', 'bytes read and not yet consumed', 'src/radarcape/rc-parser.c')], ['frame returned by the receiver input'])
p('C03', 'Receiver hardware is configured from the options before frames are read',
  'After each connect the receiver is sent exactly the option messages matching the current configuration (frame format, filters, time-stamp mode, flow control and so on: ten options, each as its documented message) before any frame is read, and when a write fails or is incomplete the connect and the whole configuration are repeated. '
  'Changing a remotely controlled filter re-sends the frame-filter option with the new value. '
  'Builds whose receiver is not attached by the serial line leave the receiver unconfigured.',
  [CO, FA], 'all option combinations and every pattern of failing writes up to the bound',
  'The tests check one default and a few modified configurations with at most one failed write.',
  ['src/radarcape/rc-parser.c', 'src/core/filter.c'], [('option writer', 'src/radarcape/rc-parser.c:configure'), ('connect loop', 'src/radarcape/rc-parser.c:INPUT_connect'), ('reconfiguration', 'src/radarcape/rc-parser.c:INPUT_reconfigure')],
  observe=['bytes written to the receiver device'])
p('C04', 'Only frames allowed by the filter are forwarded, and each is counted once',
  'A frame is forwarded if and only if it is a Mode-S short or long frame, time synchronisation is present or the synchronisation filter is off, and it is an extended squitter (format 17 or 18) or the extended-squitter filter is off. '
  'Status frames are never forwarded. '
  'Changing the extended-squitter filter reconfigures the receiver once. '
  'Every examined frame increments exactly the matching counters once.',
  [IN, HI, CO], 'all frame types, first payload bytes, configurations and histories of filter/synchronisation changes up to the bound',
  'There are no unit tests for the filter; the decision table depends on configuration, remote overrides and synchronisation history at once.',
  ['src/core/filter.c', 'src/core/recv.c'], [('filter decision', 'src/core/filter.c:FILTER_filter'), ('synchronisation state', 'src/core/filter.c:FILTER_setSynchronized')],
  observe=['frames handed to the buffer', 'filter statistics'])
p('C06', 'Buffered frames are delivered in order and only the oldest are dropped',
  'Frames come out of the buffer in the order they were stored and with the content they were stored with, a frame put back is the next one delivered, and aborted frames never appear. '
  'Only when every allowed buffer element is in use does storing a new frame drop a frame, and then it is the oldest undelivered one. '
  'Waiting returns a frame as soon as one is available, however the storing thread is interleaved, and with a time-out otherwise gives up at the time-out.',
  [HI, CO], 'all histories of store, abort, fetch, release, put-back, flush and garbage collection up to the bound, all small buffer configurations',
  'Unit tests run scripted sequences; order and drop policy must survive every interleaving of the operations with pool growth and collection.',
  ['src/core/buffer.c', 'src/util/list.h'], [('frame allocation policy', 'src/core/buffer.c:getFrameFromPool'), ('put back', 'src/core/buffer.c:BUF_putFrame')],
  [('queue', 'stored, undelivered frames', 'src/core/buffer.c'), ('pool', 'unused elements', 'src/core/buffer.c'), ('overcommit pool', 'dynamic elements kept by the collector', 'src/core/buffer.c')],
  ['frames returned to the relay'])
p('C07', 'Buffer elements are never lost, duplicated or freed while in use',
  'At every point each buffer element is in exactly one place: free, queued, being filled or being sent, and the number of elements never exceeds the configured static plus dynamic capacity. '
  'Garbage collection releases only memory none of whose elements is in use, no memory is leaked or accessed after release, and a store always succeeds when capacity remains. '
  'Every accepted configuration is usable without a crash. A stop releases all memory, and a new start after it begins with empty buffers.',
  [HI, CO], 'all operation histories and configurations up to the bound, including memory-allocation failures',
  'Tests exercise a few pool sizes; element conservation across growth, collection and un-collection is a whole-history invariant.',
  ['src/core/buffer.c', 'src/util/list.h'], [('pool growth', 'src/core/buffer.c:createDynPool'), ('collection', 'src/core/buffer.c:collectPools'), ('un-collection', 'src/core/buffer.c:uncollectPools'), ('release', 'src/core/buffer.c:destroyUnusedPools'), ('config repair', 'src/core/buffer.c:cfgFix')],
  observe=['buffer statistics', 'heap'])
p('C08', 'Receive loop stores exactly the frames that pass the filter',
  'Every frame obtained from the receiver that passes the filter is stored exactly once, unchanged, in order of arrival, and every other frame is discarded without using up a buffer element; a status frame with a non-zero time stamp establishes synchronisation. '
  'After an input failure the loop reconnects, starts over unsynchronised and continues, and cancellation at any point returns the element in use and disconnects the input.',
  [IN, HI, FA, CR], 'all sequences of frames, failures and cancellation points up to the bound',
  'The receive tests run one thread with a few frames; they do not cover filter/failure/cancel combinations at each step.',
  ['src/core/recv.c'], [('receive loop', 'src/core/recv.c:mainloop'), ('cancellation clean-up', 'src/core/recv.c:cleanup')],
  observe=['buffer operations', 'input connect/disconnect'])
p('C09', 'Relay sends every fetched frame once, after login, or keeps it',
  'After each new connection the relay logs in before it sends anything else, then sends each fetched frame exactly once and unaltered; when nothing arrives for the keep-alive interval it sends exactly the keep-alive message. '
  'A frame whose sending failed is put back and not lost, unless it is old data with no history configured, which is flushed on reconnect; cancellation returns the frame in use. '
  'No fetched frame is leaked or released twice.',
  [HI, FA, CR], 'all sequences of send results, time-outs, disconnects and cancellation points up to the bound',
  'There is no unit test of the relay loop; the property concerns every failure point of the sequence connect, login, send, release.',
  ['src/core/relay.c', 'src/core/login.c'], [('relay loop', 'src/core/relay.c:mainloop'), ('clean-up', 'src/core/relay.c:cleanup')],
  observe=['calls to transport and buffer'])
p('C10', 'Login announces device, serial, user name and position correctly',
  'Login sends, in this order, device identity (type and the program version), serial number, position and user name if one is set, each with the documented type byte, big-endian fields, fixed width (user name 40 bytes, zero padded) and escaping, and it stops and reports failure at the first message that cannot be sent. '
  'Without a serial number the program does not log in: a failure of the network while obtaining it fails the login, a failure to obtain it at all stops the program. '
  'A user name longer than 40 bytes is never sent.',
  [IN, FA], 'all device types, serial numbers, user names, positions and failure points',
  'No test covers the login; field encodings with escape bytes inside numbers arise only for particular values.',
  ['src/core/login.c', 'src/core/beast.c'], [('login sequence', 'src/core/login.c:LOGIN_login'), ('version parsing', 'src/core/login.c:getVersion')],
  observe=['bytes handed to the transport'])
p('C11', 'Sending transmits exactly the given bytes in order',
  'A successful send has handed exactly the given bytes, once and in order, to the connected socket, however many partial writes the operating system makes; an unsuccessful send reports failure and ends that connection. '
  'Receiving returns exactly what the socket delivered and treats end-of-stream and errors as a disconnect. '
  'Messages of threads that send at the same time are not mixed. Nothing is read outside the given buffer.',
  [IN, FA, SC], 'all message lengths up to the bound, all partial-write, error and end-of-stream patterns, and a second sender at any system call',
  'No test drives the transport; partial writes do not occur with small messages on an idle test machine.',
  ['src/core/network.c'], [('send loop', 'src/core/network.c:trySend'), ('receive', 'src/core/network.c:NET_receive')],
  observe=['socket system calls'])
p('C12', 'Connection handling never uses a dead socket, leaks or deadlocks',
  'However sending, receiving, connecting, failing and forced disconnects interleave, no thread uses a socket after it was closed, each socket is closed exactly once, and the process does not abort in connection handling. '
  'After a failure both sender and receiver observe the disconnect exactly once and afterwards both work on the same new connection; a forced disconnect ends the current connection. A failed attempt to connect is repeated only after a pause, and a thread waiting for a connection goes on only when there is one. After a stop and a new start the connection is set up and used by both again, whatever state the stop left behind.',
  [SC, FA], 'all interleavings of sender, receiver, a second sender and forced disconnect with connection failures up to the bound',
  'Races between the threads are not exercised by tests at all.',
  ['src/core/network.c'], [('disconnect protocol', 'src/core/network.c:emitDisconnect'), ('connect loop', 'src/core/network.c:mainloop')],
  [('connection state', 'connected / connecting / disconnected', 'src/core/network.c'), ('transfer state', 'which side still has to notice', 'src/core/network.c')],
  ['socket system calls', 'connection statistics'])
p('C13', 'Talkback stream is framed exactly and dispatched to the right handler',
  'Any byte stream from the server, however split into reads, is cut into packets by their 16-bit big-endian type and length, and each complete packet of known type with matching payload length is delivered exactly once, in order, with its payload; others are ignored. '
  'A packet whose length is outside the allowed range is not processed: everything received so far is discarded and framing restarts with the next data. '
  'Nothing is read or written outside the receive buffer and a new connection starts with an empty buffer.',
  [IN, HI, FA], 'all byte streams, all splits into reads, receive failures at any point',
  'No test feeds the talkback parser; correctness must hold for hostile server input and each fragmentation.',
  ['src/core/tb.c'], [('packet framing', 'src/core/tb.c:mainloop'), ('dispatch', 'src/core/tb.c:processPacket')],
  observe=['registered packet handlers', 'disconnect requests'])
p('C14', 'Remote commands do exactly what they request',
  'The filter command changes exactly the settings selected by its mask (bit 0 synchronisation filter, bit 1 extended-squitter filter, bit 7 forget the synchronisation state) to the requested values and touches nothing else, and the receiver is reconfigured accordingly. '
  'Restart replaces the daemon by itself with the same mode; reboot, upgrade (package update, service reload, restart, in a process of its own that never returns to the daemon) and reverse shell run exactly their documented programs with exact arguments, the reverse shell using the address and port from the packet.',
  [IN], 'all command payloads',
  'No test covers remote commands, which depend on each mask bit and byte order.',
  ['src/core/tb.c', 'src/radarcape/tb-misc.c', 'src/radarcape/tb-rshell.c', 'src/core/filter.c'], [('filter command', 'src/core/tb.c:packetConfigureFilter'), ('reverse shell', 'src/radarcape/tb-rshell.c:TB_reverseShell'), ('restart, reboot, upgrade', 'src/radarcape/tb-misc.c')],
  observe=['filter settings', 'program and argument vector executed'])
p('C15', 'The position is sent when known, when due and exactly encoded',
  'The receiver position reaches the server if and only if one is known (position and fix): immediately when it is required and becomes known, otherwise it is remembered and sent at login, and a required sending that failed is repeated with the next update. '
  'The message carries the three coordinates as big-endian IEEE doubles in the documented order with escaping. '
  'A fix change is tracked and a reset forgets position and request.',
  [HI, IN, FA], 'all histories of position, fix, request, reset and send results up to the bound, all coordinate values',
  'Nine scripted tests cover a few histories and one coordinate triple.',
  ['src/core/gps.c', 'src/util/endec.h'], [('deferred sending', 'src/core/gps.c:sendPositionIfAvail'), ('encoding', 'src/core/gps.c:sendPosition')],
  [('position flags', 'known, required, fix', 'src/core/gps.c')], ['bytes handed to the transport'])
p('C16', 'GPS receiver stream is framed exactly and bounded',
  "Whatever bytes the GPS receiver delivers and however they are split, exactly the well-formed reports (start byte, content with doubled start bytes, start byte plus end byte) are delivered with their content and length, and damaged ones or ones that do not fit the caller's buffer are skipped with resumption at the next report start. "
  'Nothing is accessed outside the buffers and failure is reported exactly when the input ends. '
  'On connect the receiver is configured by the documented command and reconnected until this succeeds.',
  [IN, HI, FA], 'all byte streams and chunkings up to the bound',
  'There is no test for this parser.',
  ['src/trimble/trimble_parser.c'], [('report decoder', 'src/trimble/trimble_parser.c:decode'), ('resynchronisation', 'src/trimble/trimble_parser.c:synchronize')],
  observe=['reports returned', 'bytes written to the GPS receiver'])
p('C17', 'Only a trustworthy GPS report sets the position',
  'The position is updated if and only if a complete supplementary timing report arrives that has the expected identifier and length and shows the required receiver mode, discipline and alarm state and a valid position fix; the coordinates used are exactly those in the report, angles converted from radians to degrees. '
  'Other reports never alter the position, and each new connection to the GPS receiver first forgets the old position.',
  [IN], 'all report contents and lengths',
  'There is no test for report interpretation.',
  ['src/trimble/trimble_recv.c', 'src/util/endec.h'], [('report interpretation', 'src/trimble/trimble_recv.c:posFrame'), ('dispatch', 'src/trimble/trimble_recv.c:mainloop')],
  observe=['position and fix updates'])
p('C18', 'Configuration files are parsed safely and line by line',
  'For any file content the parser touches only the file content and the option storage, terminates, and either loads the file or reports failure. '
  'Sections, comments, options, surrounding white space and line ends (with or without carriage return, with or without a final line end) are interpreted per line, so an option is assigned the value on its own line in its own section, unknown sections and keys have no effect, and options not mentioned are unaffected. '
  'A malformed section line or a value that does not denote a value of its type fails the load, as does a file that cannot be read; a line without an assignment is skipped. Nothing of a file loaded before influences how a file is read, and each section adjusts its values once after every load, even one that fails half-way.',
  [IN], 'all file contents up to the bound',
  'There is no test for the configuration parser; malformed and truncated files form an unbounded input space.',
  ['src/util/cfgfile.c'], [('section parser', 'src/util/cfgfile.c:parseSection'), ('option parser', 'src/util/cfgfile.c:parseOption'), ('comment skipping', 'src/util/cfgfile.c:skipComment')],
  observe=['option variables', 'load result'])
p('C19', 'Configuration values are accepted only if they denote a value of the type',
  'A value is accepted exactly if it begins with what denotes a value of its type: an integer in range (decimal, or hexadecimal or octal with the C prefix), a port up to 65535, one of the boolean words, a string that fits, or a number; the stored value is exactly the denoted one. '
  'A rejected value changes nothing beyond restoring the default when that is requested. '
  'Values set by the program and defaults are stored exactly, too long strings truncated, and strings are always terminated within their storage.',
  [IN], 'all value texts up to the bound for every type',
  'No test; numeric overflow, trailing garbage and exact-fit strings are specific inputs.',
  ['src/util/cfgfile.c'], [('integer', 'src/util/cfgfile.c:parseInt'), ('port', 'src/util/cfgfile.c:parsePort'), ('boolean', 'src/util/cfgfile.c:parseBool'), ('string', 'src/util/cfgfile.c:parseString'), ('double', 'src/util/cfgfile.c:parseDouble')],
  observe=['option variables'])
p('C20', 'Saved configuration restores the same settings, or saving reports failure',
  'Saving writes every section and every saved option, so that loading the saved file restores exactly the settings, for all values that can be given in a file. '
  "If any output operation fails the saving reports failure, and the file is closed in each case; the program's save option refuses an inconsistent configuration and otherwise ends with the matching exit status.",
  [CO, FA], 'all option values up to the bound and each failing output operation',
  'No test; a full disk or failing close is never simulated.',
  ['src/util/cfgfile.c'], [('option writer', 'src/util/cfgfile.c:writeOptions'), ('section writer', 'src/util/cfgfile.c:writeSections'), ('file writer', 'src/util/cfgfile.c:CFG_write')],
  observe=['file content', 'result of saving'])
p('C21', 'Configuration directory overlays are applied in name order, safely',
  'Loading a configuration directory loads exactly its regular files or links whose names start with a digit and end in .conf, in ascending order of the leading number, each under its own path, for any number and length of names. '
  'No name overflows the path buffer, all directory entries are released on every path, and success is reported only if the directory and all its files could be loaded; loading stops at the first failing file only if requested.',
  [IN, FA], 'all directory contents up to the bound, including names too long for a path',
  'No test loads a directory.',
  ['src/util/cfgfile.c'], [('directory loading', 'src/util/cfgfile.c:CFG_readDirectory'), ('selection', 'src/util/cfgfile.c:filterDirectory')],
  observe=['files opened', 'heap'])
p('C22', 'Components start in dependency order and are torn down exactly once',
  'Every component is constructed and started after all components it depends on, regardless of the order of registration; missing dependencies are registered automatically, and cyclic dependencies or a needed but disabled component stop the program. '
  'If any construction or start fails, exactly those already constructed or started are torn down, in reverse order; stopping stops every started component, retrying one that refuses as long as there is progress, and joins every thread exactly once.',
  [CO, FA], 'all dependency graphs and failure points up to the bound',
  'No test; the number of orders and failure points is combinatorial.',
  ['src/util/component.c', 'src/util/list.h'], [('ordering', 'src/util/component.c:sequentialize'), ('initialisation', 'src/util/component.c:COMP_initAll'), ('start', 'src/util/component.c:COMP_startAll'), ('stop', 'src/util/component.c:stopUntil')],
  observe=['constructor, start, stop, destructor calls'])
p('C23', 'List operations implement a sequence',
  'Every list operation transforms the list exactly like the corresponding operation on a sequence: pushing, popping, shifting, inserting, removing, concatenating, rotating and iterating keep all other elements in order, forwards and backwards agree, and size and emptiness are exact. '
  'This holds for empty lists, single elements and both ends.',
  [HI, IN], 'all operation histories up to the bound on all list variants',
  'Tests apply each operation to a few shapes; consistency of both directions must hold after each history.',
  ['src/util/list.h'], [('doubly linked lists', 'src/util/list.h')],
  observe=['forward and backward traversal'])
p('C24', 'Number encoding and decoding are inverse and big-endian',
  'Encoding an integer or floating point value yields its big-endian bytes, decoding big- or little-endian bytes yields the denoted value, and decoding after encoding returns the identical bit pattern for every value. '
  'Exactly the needed number of bytes is read or written, at any alignment.',
  [IN], 'all values of each width, all alignments',
  'No test; correctness for all 2^64 bit patterns cannot be sampled.',
  ['src/util/endec.h', 'src/util/port/endian.h'], [('codec', 'src/util/endec.h')],
  observe=['bytes in protocol messages'])
p('C25', 'Connecting tries each resolved address and leaks nothing',
  'Connecting to a host tries the resolved addresses, each at most once and in random order, until one accepts, returns exactly that connected socket, and fails only if none accepts; unusable address families are skipped. '
  'Every socket that is not returned is closed exactly once, the address list is released exactly once on all paths including cancellation, and a failed resolution is reported as failure.',
  [FA, CR], 'all address lists up to the bound, all failure and cancellation points',
  'No test; needs resolver and connect faults.',
  ['src/util/net_common-posix.c'], [('connect', 'src/util/net_common-posix.c:NETC_connect'), ('cancellation clean-up', 'src/util/net_common-posix.c:cleanup')],
  observe=['socket system calls'])
p('C26', 'Serial number from the network address is correct and stable',
  'The serial number obtained from the network interface is formed from the last four bytes of its hardware address in network order with the top bit cleared, from the first source that works: the interface itself if it is an Ethernet interface, then its address file holding six hexadecimal bytes; a configured serial number takes precedence. '
  'Once obtained it does not change, repeated requests return the same result, and a malformed or missing address yields failure, never a made-up number; nothing is leaked and the daemon refuses to start without a number. Saving the configuration neither changes a number nor invents one.',
  [IN, FA, HI], 'all hardware addresses, all contents of the address file, all failing sources',
  'The tests use the addresses of the build machine or a stub.',
  ['src/util/serial_eth.c'], [('socket source', 'src/util/serial_eth.c:getMacBySocket'), ('file source', 'src/util/serial_eth.c:getMacBySysfs'), ('selection', 'src/util/serial_eth.c:SERIAL_ETH_getSerial')],
  observe=['serial number'])
p('C27', 'A serial number is requested from the server once and then kept',
  'A feeder without a serial number requests one from the server and uses exactly the number the server answers, saves it to the configuration, and never requests again once it has one. '
  'While waiting it notices a lost connection; without an answer within a minute it forces a disconnect; in these cases, or if sending fails, login is deferred instead of going ahead with an invalid number. '
  'An answer that comes late is kept for the next login, and an answer that arrives once a number is known does not change the number.',
  [SC, HI, FA], 'all answers, arrival times, send failures and saving failures up to the bound',
  'No test; needs a server and particular timings.',
  ['src/dump1090/req-serial.c'], [('request', 'src/dump1090/req-serial.c:SERIAL_getSerial'), ('answer', 'src/dump1090/req-serial.c:serialResponse')],
  observe=['messages sent', 'serial number', 'saved configuration'])
p('C28', 'Library feeder encodes submitted frames exactly',
  'Each frame submitted through the general library that the filter accepts is stored once as escape byte, type for its length, 48-bit big-endian time stamp (seconds of the day and nanoseconds), level byte and payload with escape bytes doubled; frames of other lengths or without UTC time are rejected. '
  'A rejected or filtered frame leaves nothing in the buffer and no buffer is overrun. Feeding starts with stale frames and position requests of the time before forgotten.',
  [IN], 'all time stamps, levels, payloads, lengths and flags',
  'The library has no tests for the encoder.',
  ['src/gplib/opensky.cc', 'src/core/beast.c'], [('frame encoder', 'src/gplib/opensky.cc:submitFrame')],
  observe=['buffered frame'])
p('C29', 'Radarcape library forwards only intact messages',
  'Each message passed to the radarcape library is stored at most once, byte-identical with escaping, and only if its type is known, its length matches the type and the filter accepts it; the library forwards nothing while disabled and does not start without a serial number. '
  'The synchronisation state follows the reported GPS time status, a position fix is reported only with GPS time, and no buffer is overrun or leaked. Feeding starts with stale frames and position requests of the time before forgotten.',
  [IN, HI], 'all messages, lengths, states and time status values',
  'The library test covers a small set of fixed messages.',
  ['src/radarcape/lib/opensky.cc', 'src/core/beast.c'], [('message hand-over', 'src/radarcape/lib/opensky.cc:output_message'), ('time status', 'src/radarcape/lib/opensky.cc:setGpsTimeStatus')],
  observe=['buffered frame'])
p('C30', 'FPGA is programmed completely with the documented handshake',
  'Programming resets the device, waits for the handshake lines with a time-out, then clocks in every bit of the image exactly once, least significant bit first, and waits until configuration is done; success is reported only if all steps succeeded, up to three attempts are made, and each failure is reported. '
  'Pin accesses set, clear or read exactly the addressed pin and set its direction without touching other pins. '
  'A missing image, an over-long path or a device that never answers cannot crash or hang the program, and nothing stays allocated.',
  [IN, FA, CO], 'all images and path lengths up to the bound, all behaviours of the handshake lines',
  'No test; needs the hardware.',
  ['src/radarcape/fpga.c', 'src/radarcape/gpio.c'], [('programming', 'src/radarcape/fpga.c:program'), ('bit transfer', 'src/radarcape/fpga.c:transfer'), ('reset handshake', 'src/radarcape/fpga.c:reset'), ('pin access', 'src/radarcape/gpio.c')],
  observe=['register writes', 'component construction result'])
p('C31', 'External programs run with exact arguments and are reaped',
  'Starting an external program passes exactly the given argument vector; the synchronous form reports success exactly if the program ran and exited with status zero, and a failed fork or a crashed program is a failure. '
  'The detached form leaves no zombie and the parent carries on; describing the command for the log (shortened with an ellipsis) never accesses memory outside its buffer for any argument lengths.',
  [IN, FA], 'all argument vectors and lengths up to the bound, all fork, wait and exec results',
  'No test; fork failure and over-long command lines do not occur in tests.',
  ['src/util/proc.c'], [('synchronous execution', 'src/util/proc.c:PROC_execAndReturn'), ('detached execution', 'src/util/proc.c:PROC_forkAndExec'), ('command description', 'src/util/proc.c:printCmdLine')],
  observe=['process system calls'])
p('C32', 'Dropping privileges either succeeds completely or stops the program',
  'When started as root, after privileges are dropped the process runs with the unprivileged group and user, group first, or the program stops; it never carries on with root privileges because a step failed. '
  'When not started as root, nothing is changed.',
  [FA], 'all results of the identity system calls and account look-ups',
  'No test; needs failing system calls.',
  ['src/util/util.c'], [('privilege drop', 'src/util/util.c:UTIL_dropPrivileges')],
  observe=['process identity system calls'])
p('C33', 'The configured static position is valid and announced',
  'A configured static position is accepted exactly if latitude and longitude are numbers within their ranges and altitude is a finite number, and the accepted position is exactly the one announced. '
  'An invalid configuration is rejected before start.',
  [IN], 'all floating point values including infinities and not-a-number',
  'No test covers the position check.',
  ['src/dump1090/position.c'], [('check', 'src/dump1090/position.c:checkCfg'), ('announcement', 'src/dump1090/position.c:setPosition')],
  observe=['configuration check result', 'position'])
p('C34', 'Reconnect delays are random within their bounds',
  'A random integer below n is always at least zero and less than n for every n above zero and every generator state, and every value is possible.',
  [IN], 'all bounds n and generator outputs',
  'Sampling cannot show the bound for each generator output.',
  ['src/util/util.c'], [('random integer', 'src/util/util.c:UTIL_randInt')],
  observe=['delay before reconnect'])
p('C35', 'Logging is serialised, complete and stops the program on emergencies',
  'Each log call, of the programs as well as of the libraries, writes one whole message while holding the log lock, releases the lock and restores the caller’s cancellation state on every path, for every level and message. '
  'A message of the highest severity always ends the program after it has been written and flushed, other messages never do. The libraries write errors to the stream for errors and everything else to the stream for messages that the application chose, and do not hold messages back.',
  [IN, HI], 'all levels, prefixes and error numbers up to the bound, both cancellation states',
  'Tests stub out logging.',
  ['src/util/log_stdio.c', 'src/gplib/log_lib.cc', 'src/radarcape/lib/log_lib.cc'],
  [('message output', 'src/util/log_stdio.c'), ('message output of the libraries', 'src/gplib/log_lib.cc'), ('choice of the stream', 'src/radarcape/lib/log_lib.cc:getStream')],
  observe=['output stream', 'cancellation state', 'process end'])
p('C36', 'Device and network inputs deliver bytes and recover without leaks',
  'Reading from the receiver or the GPS receiver returns exactly the bytes the device delivered and zero on failure or end of stream; a descriptor that failed is not used again and is closed exactly once, at the latest by the next connect or disconnect; connecting retries with a delay until it succeeds. '
  'No sequence of failures leaks a descriptor, descriptors are not inherited by executed programs, a serial line passes bytes unchanged at the documented speed with the flow control of the receiver, writes report the number of bytes written, and the configuration check rejects missing device, host or port. The simulated receiver delivers complete well-formed frames, a status frame with the time first, and never more than fits.',
  [FA, HI, CO], 'all sequences of connect, read, write and error results up to the bound',
  'No test; needs failing devices.',
  ['src/radarcape/network.c', 'src/radarcape/uart.c', 'src/trimble/trimble_input_network.c', 'src/trimble/trimble_input_uart.c', 'src/radarcape/dummy.c', 'src/trimble/trimble_input_dummy.c'],
  [('simulated receiver', 'src/radarcape/dummy.c:RC_INPUT_read'), ('receiver network input', 'src/radarcape/network.c'), ('receiver serial input', 'src/radarcape/uart.c'), ('GPS network input', 'src/trimble/trimble_input_network.c'), ('GPS serial input', 'src/trimble/trimble_input_uart.c')],
  observe=['descriptor system calls'])
p('C37', 'The hardware watchdog is triggered steadily while running',
  'While the daemon runs the watchdog pin is toggled, set then cleared or cleared then set, in every period of at most 30 seconds and the pin is configured as output before. '
  'The daemon touches no other pin for this. The separate watchdog program opens the pins with its privileges, gives the privileges up, and then triggers for ever.',
  [HI], 'all periods up to the bound',
  'No test; needs the hardware.',
  ['src/radarcape/watchdog.c', 'src/radarcape/gpio.c', 'src/radarcape/wd-main.c'], [('watchdog loop', 'src/radarcape/watchdog.c:mainloop')],
  observe=['pin register writes'])
p('C38', 'End to end, what the receiver delivers is what the server gets',
  'With receiver input, filter, buffer, relay, login and transport working together, the bytes sent on each connection are a correct login followed by exactly the wire images of the frames that passed the filter, in order, interleaved at message boundaries with nothing but keep-alive messages and, if it was not known at login, the position as soon as it is. '
  'Frames are lost only by the documented drop or flush policies.',
  [HI, FA], 'all receiver streams and connection failure points up to the bound',
  'No test runs the stages together.',
  ['src/core/recv.c', 'src/core/relay.c', 'src/core/buffer.c', 'src/core/network.c', 'src/core/login.c', 'src/radarcape/rc-parser.c'],
  [('receive loop', 'src/core/recv.c:mainloop'), ('relay loop', 'src/core/relay.c:mainloop')],
  observe=['bytes on the server connection'])
p('C39', 'The feeder starts only if it can work, as configured, and ends in order',
  'At its start the feeder creates the directories of its configuration if they are missing and quits if they cannot be created, accessed or are something else. '
  'Every option then has its documented default, overlaid by the files of the state directory and then by those of the system configuration directory; it quits if host or port of the receiver or of the network are missing, or if a component cannot be constructed or started, and for no other reason. '
  'The configured user name (up to 40 characters) and device type (hptoa or opensky, in upper or lower case, denote the HPTOA branch, everything else the plain feeder) are known before anything is sent. The feeder runs until it is interrupted, then stops, destructs and forgets all components, in this order, and ends successfully. '
  'The Radarcape daemon reads its configuration file over the defaults, has all its components, announces the device type of its input and takes the same steps in the same order; without a serial number it quits.',
  [CO, FA], 'all states of the directories, pairs of configuration files, lengths of user names, and failures of construction, start and signal handling',
  'No test runs the program; most of these states cannot be brought about in a test.',
  ['src/dump1090/dump1090.c', 'src/dump1090/devtype.c', 'src/util/util.c', 'src/core/network.c', 'src/radarcape/network.c', 'src/core/filter.c', 'src/util/cfgfile.c', 'src/radarcape/main.c'],
  [('start and end', 'src/dump1090/dump1090.c:main'), ('daemon', 'src/radarcape/main.c:main'), ('directories', 'src/dump1090/dump1090.c:ensureDir'), ('device type', 'src/dump1090/devtype.c:DEVTYPE_getDeviceType'),
   ('consistency', 'src/core/network.c:checkCfg'), ('waiting', 'src/util/util.c:UTIL_waitSigInt')],
  observe=['calls of the components', 'file system and signal system calls', 'exit of the program'])
p('C40', 'The statistics tell the truth',
  'While statistics are enabled, one complete report is written in every configured interval, and never cut by a cancellation. Each number in it is what was counted until then: frames received by type, filtered and unsynchronised frames; '
  'frames queued, most frames ever queued, dropped in this, the worst and all overloads, dynamic pools now, at most and overall, flushes and collector runs; connection attempts, disconnections (failed attempts and lost connections), '
  'bytes of completely sent messages, bytes received, time online and whether the connection is up. Percentages are the share of the whole, rates the ones since the start and since the last report, and the time since the start is right.',
  [HI, IN], 'all counter values and all histories of frames, buffer operations and connections up to the bound',
  'No test looks at the report, and the counters are only sampled.',
  ['src/util/statistics.c', 'src/core/buffer.c', 'src/core/network.c', 'src/core/filter.c'],
  [('report', 'src/util/statistics.c:printStatistics'), ('buffer counters', 'src/core/buffer.c:getFrameFromPool'), ('network counters', 'src/core/network.c:mainloop'), ('time online', 'src/core/network.c:emitDisconnect'), ('filter counters', 'src/core/filter.c:FILTER_filter')],
  observe=['standard output', 'statistics of buffer, network and filter'])


def main():
    import sys
    sys.path.insert(0, os.path.join(V, 'tools'))
    import specs
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for q in P:
            d = dict(id=q['id'], title=q['title'], statement=q['statement'],
                     quantifier=dict(over=q['over'], text=q['qtext']), why_tests_cant=q['why'],
                     anchors=dict(files=q['files'], mechanism=[dict(name=n, where=w) for n, w in q['mech']]))
            if q['state']:
                d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in q['state']]
            if q['observe']:
                d['anchors']['observe_at'] = list(q['observe'])
            d['anchors']['hook_needed'] = None
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    checks, na = [], []
    for q in P:
        if q['na'] or q['id'] not in specs.SPECS:
            na.append(dict(property=q['id'], reason=q['na'] or 'no check built yet'))
            continue
        s = specs.SPECS[q['id']]
        checks.append(dict(
            property=q['id'], quick_cmd='python3 run.py %s quick' % q['id'],
            thorough_cmd='python3 run.py %s thorough' % q['id'],
            technique=s.get('technique') or 'path-complete bounded symbolic execution of the real code (LLVM bitcode) with Z3 deciding every branch, access and assertion; counterexamples replayed natively',
            level='model_checking',
            level_note=q['note'] or ('Every feasible path within the harness bounds is explored and every assertion, memory access and arithmetic '
                                     'trap on it decided by the solver. Trusts clang, Z3, the engine in symx/ (cross-checked by native replay of '
                                     'sampled paths) and the environment stubs of the harness. ' + ('Outside: ' + s['outside'] if s.get('outside') else '')).strip()))
    m = dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=na,
             notes='Solver-based checking (symbolic execution + SMT) of the real code; see DESIGN.md.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
