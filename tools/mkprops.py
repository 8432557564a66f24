"""Writes properties.jsonl (kept as a program so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))
U='atoparser/utils.py'; R='atoparser/reader.py'; S='atoparser/structs/shared.py'; A='atoparser/parsers/atop_1_26.py'
ALLS=['atoparser/structs/atop_%s.py'%v for v in '1_26 2_3 2_4 2_5 2_6 2_7 2_8 2_9 2_10 2_11 2_12'.split()]

p('P01','Exactly the logs with a matching layout are accepted, under the right version',
 'Reading a header succeeds exactly when the full 480 header bytes are present, carry the atop magic number, and every struct length they record (header, record, system, task/process and, from 2.11 on, cgroup) equals the length in that atop version\'s layout; every other input is rejected with ValueError. '
 'The version is reported as major.minor exactly as encoded in the file, and selects that version\'s own structures for the header and for everything read after it; a version without structures of its own is held to, and read with, the newest layout. '
 'With the compatibility check switched off only the magic number and the header size are required.',
 ['inputs','configurations'],
 'All 480-byte headers: every version number 0.0-127.255, every single and combined perturbation of the recorded lengths, every shorter input, any content in the remaining fields.',
 'Tests read one good header per version and two bad ones (wrong magic, 32 bytes); the accept/reject boundary over versions x length fields is never exercised.',
 [U,S]+ALLS,[('get_header','atoparser/utils.py:get_header'),('check_compatibility / semantic_version','atoparser/structs/shared.py:HeaderMixin')],
 ['return value, exception type and class attributes of get_header'])
p('P02','Every named field decodes to the value atop stored at its place in the C struct',
 'For every supported version and every named (non-reserved) field of the header, record, system, task/process and cgroup structures, including every element of every array, the value a reader sees is the value the atop C program stored in that field, with C\'s width, signedness, alignment and string rules. '
 'The field names, and the structures they are found in, are those of that atop version.',
 ['inputs','configurations'],
 'All field contents (any bit pattern) for all 11 layouts, all leaves and array positions.',
 'Tests look at about ten fields of the last sample of one tiny real log per version, most of them zero: a swapped, mis-sized, mis-signed or mis-aliased field of equal size stays invisible.',
 ALLS+[S],[('ctypes _fields_ tables and cross-version aliases','atoparser/structs/*.py')],
 ['attributes of the objects returned by get_header and generate_statistics'])
p('P03','Every stored sample is delivered once, in order, complete and byte-exact',
 'For an intact log, reading statistics yields exactly the stored samples, once each and in file order, and then stops without error. '
 'Each sample carries its record, its system statistics, exactly as many task/process entries as the record announces (1.26: its list count; later: its deviating-task count) and exactly as many cgroups as it announces (none before 2.11), in stored order, whose memory equals the stored bytes. '
 'This holds for any number of samples, any sizes of the compressed parts and any metadata values in header and record.',
 ['inputs','histories'],
 'All well-formed logs: any version, any sequence of samples, any counts (0 to tens of thousands), any compression settings of the blocks, any flag/time/interval values.',
 'The bundled logs hold 5 samples with at most 6 tasks and 1 cgroup each, and tests only look at the last sample\'s last element.',
 [U],[('sample loop','atoparser/utils.py:generate_statistics'),('task slicing','atoparser/utils.py:get_tstat'),('cgroup slicing','atoparser/utils.py:get_cstat')],
 ['yielded tuples'])
p('P04','Each cgroup keeps its own statistics, full-length stepping and its own pid list',
 'For samples of 2.11 and later, every cgroup is returned in stored order with its own statistics, whatever the lengths of the variable-size cgroup names stored between them, together with exactly the process ids that belong to it. '
 'Across a sample no process id is lost, duplicated or handed to another cgroup, cgroups without processes have an empty list, and a sample that carries no cgroup data has no cgroups. '
 'Converted to a dictionary, a cgroup has the statistics under "cstat" and the ids under "proclist".',
 ['inputs'],
 'All cgroup sequences: any number, any name length including empty and unaligned, any process counts, any pid values, any tree shape.',
 'All bundled logs hold exactly one cgroup (the root, with an empty name) per sample, so neither the stride nor the pid partition is ever exercised.',
 [U,'atoparser/structs/atop_2_11.py','atoparser/structs/atop_2_12.py'],[('cgroup loop','atoparser/utils.py:get_cstat'),('CGChainer','atoparser/structs/atop_2_11.py')],
 ['fourth element of the yielded tuples','struct_to_dict of it'])
p('P05','A cut or damaged log yields exactly its intact prefix, quietly or with an error',
 'If a log ends early at any byte after its header, or a compressed block in it is corrupted, reading yields exactly the samples stored completely before that point, each unchanged, and never a partial or altered one. '
 'With truncation tolerated, reading then simply ends; otherwise (the default) it raises a decompression error when the cut falls inside, or the corruption is in, a sample\'s compressed data. '
 'The same holds when the log sits in a gzip file that is itself cut short, when a system, task or cgroup block is announced shorter than it is stored, and when the bytes from some point on read as zeros; zero bytes where the next record would begin end the log quietly.',
 ['inputs','crash_points'],
 'Every cut position of every log, and any corruption of any compressed block (system, task, cgroup, pid list), for all versions and both truncation modes.',
 'Tests cut one record and one block at one place; no test checks what generate_statistics does with a cut or corrupt log.',
 [U],[('zlib.error handling','atoparser/utils.py:generate_statistics'),('end-of-file detection','atoparser/utils.py:get_record')],
 ['yielded tuples and the exception that ends the generator'])
p('P06','Hostile input ends in bounded work with ValueError or a decompression error only',
 'Whatever bytes a file holds, opening and reading it, converting what was read, and printing it finishes in a number of steps bounded by the file\'s size and announced counts, without crashing the interpreter or hanging. '
 'The only exceptions that reach the caller are ValueError (malformed content) and zlib\'s decompression error (and, for a gzip file whose container is broken, the gzip module\'s own errors).',
 ['inputs'],
 'All byte strings: random, structure-aware mutated headers, records and payloads, contradictory counts and lengths, zero or negative strides.',
 'No test feeds malformed content beyond three fixed byte strings.',
 [U,S,R],[('sample cap','atoparser/utils.py:MAX_SAMPLES_PER_FILE'),('bounds-checked from_buffer_copy','atoparser/utils.py')],
 ['exceptions, executed line events and read calls'])
p('P07','Dict conversion is complete, limited to live entries, and JSON-safe',
 'Converting any structure to a dictionary gives, under the struct\'s own field names and in its order, every field except reserved "future" placeholders, with nested structures and arrays converted element by element and values unchanged. '
 'Arrays governed by a live count (cpus, disks, volumes, interfaces, NFS mounts, containers, GPUs, InfiniBand ports, NUMA nodes, caches) contain exactly the first count entries, never more than the array holds; other arrays are complete. '
 'Byte strings become text up to their terminator with undecodable bytes dropped, so for finite numbers the result survives a JSON round trip unchanged.',
 ['inputs','configurations'],
 'All structures of all versions with any content, all live counts from 0 to beyond capacity, any bytes in names.',
 'Tests convert five nearly empty samples per version and compare a handful of keys; counts other than the recording VM\'s are never seen.',
 [U]+ALLS,[('struct_to_dict','atoparser/utils.py:struct_to_dict'),('fields_limiters','atoparser/structs/*.py')],
 ['return value of struct_to_dict'])
p('P08','Readers are isolated from each other, and delivered samples never change',
 'What one reader yields depends only on its own file: any interleaving of readers over different logs and versions, in one thread or several, yields the same data as reading each alone, and reading the same log again yields the same data again. '
 'A header, record, structure or list that has been handed out keeps its content while reading goes on, shares no storage with any other, and changing it does not affect any other object or what is read later from any file.',
 ['histories','schedules'],
 'All interleavings of opens, header reads, sample steps, conversions and mutations of already delivered objects, across versions and threads.',
 'Every test reads one file to the end at a time and never looks back at earlier samples.',
 [U,S],[('per-instance version cache','atoparser/structs/shared.py:HeaderMixin.semantic_version'),('from_buffer_copy / fresh record','atoparser/utils.py')],
 ['yielded objects before and after further steps'])
p('P09','The command line prints every file\'s content as exact JSON, as the options ask',
 'For every file given, in order, the command prints one JSON array with one entry per readable sample in order; each entry holds the dictionary form of the header, the record and the system statistics, plus "tstat" and "cgroup" lists exactly when the respective option is given. '
 'Pretty and compact printing differ in whitespace only, a log that is cut short still prints its complete samples, and a log without samples prints an empty array.',
 ['inputs','configurations'],
 'All readable logs and all combinations of file lists and options, in-process and as a separate process.',
 'The test compares the last ten lines for one file with default options; --tstats, --cstats, compact output and multiple files are never run.',
 [R,U],[('parse_file','atoparser/reader.py:parse_file'),('argument wiring','atoparser/reader.py:main, parse_args')],
 ['stdout of the command / parse_file / main'])
p('P10','1.26 "parseable" rows carry exactly the statistics atop defines for them',
 'For any 1.26 sample, each parseable format yields exactly its rows: one per counted cpu for "cpu", one per named disk, volume, multi-device and interface (up to the first unnamed entry) for DSK/LVM/MDD/NETL, one per process in order for PRC/PRD/PRG/PRM/PRN, and one for the system-wide formats. '
 'Each row\'s labelled values are those atop defines for that format: sample time and interval, clock ticks and page size from the header, counters from the matching statistics field, upper network counters as IPv4 plus IPv6 sums, process memory in bytes (kilobytes times 1024), patch and I/O markers from the header\'s support flags, and names as text with undecodable bytes dropped.',
 ['inputs'],
 'All 1.26 headers, records, system and process statistics, all counts from none to full arrays, any names.',
 'The test compares the last row of the last sample of one log where nearly all values are 0, so swapped or wrong fields with equal values pass, and row counts are not checked.',
 [A,'atoparser/structs/atop_1_26.py'],[('parse_*','atoparser/parsers/atop_1_26.py')],
 ['rows yielded by the parse functions','CLI -P output'])
p('P11','CLI parseable mode: all rows, in order, labelled; other versions refused',
 'With -P the command prints, for a 1.26 log, one array holding for each sample in order, and within it for each requested format in the order requested, all rows of that format, each labelled with its format under "parseable". '
 'For a log of any version without parseable support it prints exactly one entry that names the version and the file instead, and no sample data; without -P all versions print full structures.',
 ['inputs','configurations'],
 'All logs, all non-empty sequences of the offered formats including repeats, alone or with other options and several files.',
 'Tests run a single format on one log and one unsupported version.',
 [R,A],[('PARSEABLE_MAP and loop','atoparser/reader.py')],
 ['stdout of the command / parse_file / main'])
p('P12','The same log bytes give the same result through any kind of binary stream',
 'The result of reading depends only on the bytes of the log, not on how they are supplied: memory, buffered or unbuffered files, gzip/bz2/xz streams, buffered pipes and other buffered binary readers, starting at any offset of a larger stream, with the header read from this stream or from another one of the same log, all give equal headers, samples and endings. '
 'For the command line a plain log and its gzip-compressed form whose file name contains ".gz" print the same output.',
 ['inputs','configurations'],
 'All logs x all stream kinds, gzip levels, multi-member gzip files, and start offsets.',
 'Tests only use gzip files and in-memory bytes, each with different content, and never compare them.',
 [U,R],[('readinto/read use','atoparser/utils.py'),('opener choice','atoparser/reader.py:parse_file')],
 ['yielded samples per stream kind'])
p('P13','Single-step reading composes to the same result as reading statistics in bulk',
 'Reading a log with the single-step functions (header, then record, system, task and cgroup statistics per sample) gives the same objects as bulk reading, each step consuming exactly its part of the file. '
 'Bulk reading with no header given equals bulk reading with the header read first, and any mix of stepping, partial bulk reading and abandoning and resuming at a sample boundary continues with the next sample.',
 ['histories','inputs'],
 'All logs and all ways to split their samples between single-step, bulk, header-given and header-less reading.',
 'Tests never combine the step functions with bulk reading and never omit the header.',
 [U],[('get_header/get_record/get_sstat/get_tstat/get_cstat','atoparser/utils.py'),('generate_statistics','atoparser/utils.py:generate_statistics')],
 ['returned objects and stream positions'])
p('P14','Reading has no side effects beyond consuming the given stream',
 'Reading, converting and printing logs only reads the files it was given: it writes, creates, renames or deletes no file, starts no process, opens no network connection, and loads no code outside the package and Python\'s standard library. '
 'The library never closes, seeks or writes to a stream the caller passed in, and the command closes every file it opened, also after errors. Settings of the process (limits, signal handlers, the collector, environment, locale, standard streams) are left as they were.',
 ['inputs','histories'],
 'All logs, good or damaged, through every public function and the command.',
 'No test observes system-level effects.',
 [U,R],[('caller-owned streams','atoparser/utils.py'),('with-statement','atoparser/reader.py:parse_file')],
 ['interpreter audit events, calls made on the stream, open file descriptors'])
p('P15','Samples stream: each is delivered from its own bytes alone, in constant memory',
 'A sample is delivered as soon as its own last byte is available: to deliver it the reader consumes exactly the bytes up to the end of that sample and asks for none beyond, and nothing is read from the stream before the first sample is requested or after the reader is abandoned. '
 'The memory held by the reader does not grow with the number of samples already delivered.',
 ['inputs','histories'],
 'All logs, at every step of reading, for streams of any length.',
 'Tests read whole small files into lists.',
 [U],[('lazy generator','atoparser/utils.py:generate_statistics')],
 ['stream position at every yield, traced memory over long streams'])
p('P16','Reading never yields more samples than the limit, and never fewer than it allows',
 'With a sample limit of n, reading yields exactly the first n samples of the log, or all of them if there are fewer, and then ends without error and without consuming anything past the last sample it delivered. '
 'Without a limit of its own, a reader yields at most 86400 samples, one per second for a day, so reading always ends even on an endless stream.',
 ['inputs','configurations'],
 'All limits (0, 1, the exact count, one off it, far beyond it, the default) x all logs, including endless streams.',
 'No test passes a limit and all test logs hold 5 samples.',
 [U],[('max_samples','atoparser/utils.py:generate_statistics, MAX_SAMPLES_PER_FILE')],
 ['number of yielded samples and stream position'])
p('P17','Conversions and parseable rows are pure, repeatable and always current',
 'Converting a structure to a dictionary, or a 1.26 sample to parseable rows, changes nothing it is given and gives the same result every time, in any order, however many conversions and row generators are in progress at once and however far each is consumed. '
 'Each result is computed from the content the structure has at that moment and is a fresh object: changing or emptying a returned dictionary, list or row affects no structure, no other result and no later conversion.',
 ['histories','inputs'],
 'All sequences of conversions, row generation (complete, partial, interleaved, abandoned), changes to results and changes to structures, for all versions and formats.',
 'Tests convert each structure once and look at the result; nothing is converted twice, interleaved, or looked at afterwards.',
 [U,A],[('struct_to_dict','atoparser/utils.py:struct_to_dict'),('parse_* generators','atoparser/parsers/atop_1_26.py')],
 ['dictionaries and rows', 'memory of the converted structures'])
p('P18','A failing file or wrong usage fails the command, and never mixes into its output',
 'A file that cannot be opened, is not a readable log, or holds malformed content ends the command with a non-zero exit status and a message; standard output then holds exactly the complete output of the files before it and nothing of the failing file or of any behind it. '
 'Wrong usage (no file, an unknown option, an unknown or missing format) is refused with exit status 2 and nothing on standard output. Output that cannot be written fails the command too. In every other case the exit status is 0.',
 ['inputs','configurations'],
 'All file lists with readable and unreadable, damaged, malformed or missing files at any position, all option combinations, all wrong command lines.',
 'No test runs the command on a failing file or with wrong options.',
 [R,U],[('parse_file','atoparser/reader.py:parse_file'),('argument parsing','atoparser/reader.py:parse_args'),('file loop','atoparser/reader.py:main')],
 ['exit status, stdout and stderr of the command', 'exceptions of parse_file'])
p('P19','Only truncation is tolerated: every other failure reaches the caller unchanged',
 'An error raised by the stream while a log is read (an I/O error, a timeout, an interrupt, any exception other than the end of data) reaches the caller as it is, whether truncation is tolerated or not, after exactly the samples completed before it; the single-step functions pass it on likewise. '
 'A sample whose decompressed data is shorter than its record announces raises ValueError in both modes. After any error the reader is finished: it yields nothing more and does not touch the stream again.',
 ['inputs','crash_points'],
 'All logs x a fault at any byte x exception types x truncation modes x ways of reading, and all samples that contradict their record.',
 'No test reads from a failing stream or from a sample that contradicts its record.',
 [U],[('exception handling','atoparser/utils.py:generate_statistics'),('step functions','atoparser/utils.py:get_header, get_record, get_sstat, get_tstat, get_cstat')],
 ['the exception object that arrives', 'samples yielded before it'])
p('P20','A log still being written is readable at any time, and reading can be continued',
 'Every look at a log that is being written yields exactly the samples that are completely written at that moment; later looks yield the same samples again and the new ones behind them. A reader that is kept open delivers samples written after it was started. '
 'Reading that ended at the end of a sample, or whose stream was put back there, is continued by a new reader on the same stream and header with exactly the samples written since.',
 ['schedules','histories','crash_points'],
 'All logs x all divisions of the writing into pieces x all moments of looking, with new and kept streams and readers, and writers running at the same time.',
 'Tests read finished files once; none reads a file that grows, or goes on reading after an end.',
 [U,R],[('end of the readable data','atoparser/utils.py:generate_statistics'),('reading a record','atoparser/utils.py:get_record'),('opening files','atoparser/reader.py:parse_file')],
 ['samples of each look', 'position of the stream at the end of each look'])
p('P21','Results depend on the log and the call alone, never on the process around them',
 'What is accepted, read, converted and printed depends only on the log, the call and the command line. It does not depend on the process and host around them: interpreter optimisation, warning and memory switches, locale and output encoding, environment variables, the time, the working directory, garbage collection, tracing, the number of cpus or free descriptors, other threads, running in a forked child, a thread or a coroutine, the order of imports, '
 'or whether the standard streams are files, pipes, terminals, closed or absent.',
 ['configurations','schedules'],
 'All logs (accepted, refused, cut, damaged) x all interpreter switches, variables, process states and their combinations.',
 'Tests run in one process with default switches and one set of variables.',
 [U,R,S],[('validation','atoparser/structs/shared.py:check_compatibility'),('conversion and decoding','atoparser/utils.py:struct_to_dict'),('printing','atoparser/reader.py:parse_file')],
 ['results of library calls in separate processes', 'exit status and stdout of the command in them'])
p('P22','The cost of reading and converting grows no faster than the data itself',
 'Reading a log, in bulk or in single steps, converting what was read, producing parseable rows and printing with the command take time and memory at most in proportion to the amount of data handled: to the number of samples, of tasks, cgroups and process ids per sample, to the bytes of their blocks and names, and to the number of files. '
 'The last sample of a long log, and the last of many logs read by one process, cost what the first ones cost, and nothing of a log remains in memory once it and everything delivered from it are dropped.',
 ['inputs','histories'],
 'All logs, in every dimension in which they can grow, and all histories of logs read one after another in a process.',
 'The bundled logs hold 5 samples with at most 6 tasks and 1 cgroup; at that size every growth looks the same.',
 [U,R,A],[('task slicing','atoparser/utils.py:get_tstat'),('cgroup and pid slicing','atoparser/utils.py:get_cstat'),('sample loop','atoparser/utils.py:generate_statistics'),('output','atoparser/reader.py:parse_file')],
 ['cpu time, executed lines and traced memory of the calls', 'cost per sample along a stream, per log along a history'])
p('P23','An interrupt at any moment is passed on, and later uses are unaffected by it',
 'When an exception from outside (an interrupt from the keyboard, a timeout raised by a signal handler, exhausted memory, an exception set by another thread or thrown into a waiting reader) arrives at any moment while the package reads, converts, produces rows or runs the command, it reaches the caller as it is, whether truncation is tolerated or not. '
 'The samples delivered before are intact, the interrupted reader is finished, the stream is left open, and settings, descriptors and working directory of the process are as before. '
 'Afterwards every log, of the same or another version, is read, converted and printed as if nothing had happened, in every thread, also when the interrupted call was the first use of the package in the process. What the interrupted command printed is the beginning of its whole output, and it does not end successfully with less than all of it.',
 ['crash_points','schedules','histories'],
 'All operations x all moments at which an interrupt can arrive x exception types x what is done afterwards.',
 'No test interrupts anything.',
 [U,R,A,S],[('sample loop and its exception handling','atoparser/utils.py:generate_statistics'),('steps and conversion','atoparser/utils.py'),('files and output','atoparser/reader.py:parse_file')],
 ['the exception object that arrives', 'results of later calls in this and other threads', 'process settings and descriptors', 'exit status and stdout of the command'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
