"""What each check covers and what lies outside, in words (DESIGN.md and evidence).
BOUNDS[id] = (what is symbolic and how far, what lies outside)"""

BOUNDS = {
    'C01': ('every input of up to 6 (thorough 10) bytes, symbolic length and content; output buffer of exactly twice the length with guard bytes',
            'longer inputs (the function has no state besides its two pointers and the current chunk)'),
    'C02': ('byte streams of 11 to 46 symbolic bytes (see harness table), delivered in reads cut at symbolic positions or byte by byte; up to ESC escape bytes at any position, or none restricted in the runs "any"; runs of well-formed frames of 143 to 170 bytes that cross the end of the input buffer; reconnects. Reference: a parser over the complete stream written from the protocol description',
            'streams with more escape bytes than ESC in frames longer than the "any" runs, except frames consisting of escaped escape bytes only (allesc)'),
    'C03': ('all option values, symbolic results of every device write and connect, A connects and R reconfigurations, each of the three kinds of receiver attachment',
            'more connect attempts in a row than A'),
    'C04': ('K filter operations of any kind and order from every configuration and counter value (counters 64 bit symbolic), any frame type and first byte',
            'longer histories (the state after K operations is again covered by the symbolic start state except for the two flags the harness reaches by operations)'),
    'C06': ('all histories of K operations (produce, new, commit, abort, get, wait, release, put back, flush, collect) after a set of prefixes that bring the buffer to its interesting states, on pools of 2 to 3 static and up to 4 dynamic elements, symbolic frame content; failing allocations; every configuration (anycfg); every interruption of one operation by another thread\'s operation at any memory access (preempt); every current time and the listed time-outs (deadline); threads that really wait: producer of 3 to 4 frames, consumer and collector with 1 to 2 preemptions at any memory access, mutex call or wake-up (threads)',
            'larger pools in long histories; more than one preemption per history; weak memory'),
    'C07': ('as C06; asserted are the place of every element, pool sizes, heap use and capacity',
            'as C06'),
    'C08': ('K input results (any frame or failure), any filter configuration, cancellation at any blocking call, buffer with or without an element',
            'longer sequences (the loop keeps no state of its own between frames besides the element in use)'),
    'C09': ('K events (connection up, login accepted or refused, frame or time-out, send accepted or refused, cancellation at any blocking call), any frame content and length',
            'longer sequences'),
    'C10': ('any device type, serial number, position state, symbolic user names (up to 2 free bytes; lengths up to 42), any message failing, two logins in a row (with a one character user name in both), several version strings',
            'version strings other than those of the harness'),
    'C11': ('any message content of 1 to 5 (7) bytes, up to 2 (3) messages, every series of partial writes and errors; long messages with every split; second sender arriving at any send call; a sender or receiver canceled in its system call; reads of any result',
            'longer messages with several splits (the loop keeps a pointer and a rest only)'),
    'C12': ('every interleaving, at blocking and mutex calls, of connection thread, sender, receiver and second sender with the listed numbers of operations, injected failures and preemptions, waiting threads that wake without reason, the delay between attempts to connect, and a restart after the stop',
            'more operations, failures or preemptions; instruction level interleaving of unlocked accesses in network.c (all its state is accessed under its mutex; the mutex calls are switch points)'),
    'C13': ('streams of 8 to 11 symbolic bytes in up to 3 reads on up to 2 connections; mostly concrete streams of 300 bytes with lengths around the limit of the buffer',
            'long streams of arbitrary content'),
    'C14': ('every filter payload from every state, two (three) commands in a row; each daemon command with symbolic payload (address, port) and every result of the system calls',
            'builds without systemd/pacman integration'),
    'C15': ('histories of 5 (6) operations with any coordinates and any send result; encoding for every 64 bit pattern of the coordinates with at most ESC (or all) escape bytes; every interruption of an operation by another thread\'s operation at any memory access',
            'more than one preemption'),
    'C16': ('streams of 7 to 10 symbolic bytes with cut reads, any buffer size; mostly concrete streams of 100 and 300 bytes around the sizes of the buffers; every write and connect result',
            'long streams of arbitrary content'),
    'C17': ('K reports of any type, length and content, any connection event between them; coordinates are exact for every bit pattern (SMT floating point)',
            'longer sequences (the loop has no state)'),
    'C18': ('files with 4 to 6 free bytes at each of twelve places of a configuration file (start, in a section name, an option, a value of each type, a comment, after CR LF, in the middle of a file), one file after another; failing system calls. Reference: a line parser written from the statement',
            'free text longer than that at a time; conversion of floating point text'),
    'C19': ('every decimal, octal and hexadecimal number of the listed lengths for integer and port options, strings of every length around the option\'s size, every text of up to 6 (7) bytes as a boolean, values set by the program (all 32 bit values)',
            'floating point texts other than the listed ones (conversion is the C library\'s)'),
    'C20': ('sections with options of every type, symbolic strings, ports and booleans, listed integers and floating point numbers, every write and rename failing; saved text is parsed again by the real parser',
            'integers and floating point numbers other than the listed ones (formatting is the C library\'s)'),
    'C21': ('one directory entry with any name of up to 7 (9) bytes, three files with symbolic numbers in any directory order, two (three) files with numbers around 2^31, 2^32 and 2^64, path and name lengths around PATH_MAX, each file failing or not',
            'the order of files with equal numbers; numbers of 2^64 and more; platforms without scandir'),
    'C22': ('three components (four in thorough) with every dependency relation, registration order, and every construction, start and stop failing or refusing, and components that are switched off by their flag',
            'more components'),
    'C23': ('every sequence of K operations on two lists with up to N elements together, each of the four list variants and the fallback without generic selection',
            'longer histories (the shape of the lists after K operations covers all lengths up to N)'),
    'C24': ('every 16, 32 and 64 bit value and every float and double bit pattern, every alignment within 8 bytes, with and without the system\'s endian.h',
            'big-endian machines'),
    'C25': ('up to 3 (4) resolved addresses of any family (variant "many": 5 (7) of which all but the last are refused), any result of socket, setsockopt and connect, cancellation at any cancellation point, any random order',
            'more addresses'),
    'C26': ('any hardware address, interface kind and result of each system call; address files of symbolic length and content; repeated requests; start of the daemon with and without a number; configurations saved and loaded again (listed numbers and addresses)',
            'address files longer than the buffer of the reader'),
    'C27': ('STEPS steps of: request, answer at any time, disconnect, time-out, failing send; any serial number; failing save',
            'failing condition variables'),
    'C28': ('frames of any length 0 to 20 with symbolic payload (FREEBYTES free), time stamp, level, filter; sequences of STEPS submissions, enable, disable, reset',
            'payloads with more escape bytes than free bytes'),
    'C29': ('as C28 with message types and lengths of the radarcape library and any GPS time status',
            'as C28'),
    'C30': ('images of 1 to 6 bytes, every bit free (image) or every answer of the handshake lines at every poll (device), every file name length around the limits and every failing system call; pin operations on any pin and register content',
            'large images with symbolic answers (the transfer loop is byte-wise)'),
    'C31': ('argument vectors of any length and content within the buffer of the description, every result of fork, exec, waitpid (any status) and of the signal set-up',
            'more than a few arguments'),
    'C32': ('every result of getuid, getgid, getpwnam, getgrnam, setgid, setuid, initgroups',
            'supplementary groups granted by the kernel outside of these calls'),
    'C33': ('every 64 bit pattern of latitude, longitude, altitude (SMT floating point)', 'command line options of the feeder other than those of its option table'),
    'C34': ('every generator result for n up to 20 (128), listed larger n, symbolic n up to 255 (thorough)',
            'n above RAND_MAX and values of n not listed; generators that return unusable numbers for ever'),
    'C35': ('every level, format kinds, errno and cancellation state, sequences of up to 3 messages; both strerror_r flavours; for the libraries also messages of up to 2047 characters and every choice of streams',
            'longer messages of the libraries (cut at 2047 characters); failing output'),
    'C36': ('STEPS operations (connect, read, write, disconnect) with every result of each system call on network and serial inputs of both receivers; every configuration; READS frames of the simulated receiver with any time of day',
            'longer sequences'),
    'C37': ('loop rounds with symbolic sleep results, any pin register content; start of the watchdog program with every failing call',
            'the kernel\'s scheduling of the thread'),
    'C38': ('ITEMS items of the receiver stream (frames of any type, garbage, failures) through the complete chain of threads with FAILS connection failures, INFAILS input failures, cut reads, partial writes, filter commands, time-outs and SW preemptions; payload bytes free in "stream" and "command"; variant "position": the GPS thread reporting the position at any time on working connections',
            'more items, failures or preemptions than given; instruction level preemption (covered by C06, C07 and C15 for the code that shares data)'),
    'C39': ('every result of the directory system calls; every combination of given and missing options of the feeder\'s real option tables in symbolic files of state and system directory; every construction and start failing; user names of 0 to 45 characters; every signal and interrupted wait; the Radarcape daemon in its four builds with every failure of configuration, serial number, construction and start',
            'command line options of the feeder other than those of its option table'),
    'C40': ('one report (thorough: two) with every counter a free 60 bit number and any type of Mode-S frame counted, listed running times up to 63 years; two reports with listed numbers for rates and percentages; K operations on the buffer (six configurations), the filter and the network (two failures) with every counter compared after each',
            'clocks that go back; counters read while they change (documented as inconsistent); frame counts above 2^60'),
}
