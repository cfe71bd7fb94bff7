SAMPLES = "the unit tests evaluate a handful of literals"
PROPS = [
 dict(id="C01", title="Text views stay inside their text and derive exactly the specified part",
      statement="For every text view: indexing, advancing, sub-views by position and size (clamped to the end of the text), by begin and end, or from a position on, trimming of blanks and newlines at the front, back or both, cutting at a delimiter, cutting the first line and stripping a trailing carriage return yield exactly the specified part of the original bytes, lie inside it and read no byte outside it. Construction from pointer and length, pointer range, string view or NUL-terminated text, assignment and conversion keep exactly the same bytes; validity and emptiness mean length > 0 and length = 0. Preconditions: a start position or advance is at most the length, and begin is at most end.",
      forall="all view contents, lengths and positions (64-bit), within the stated preconditions", why="only all bytes/lengths/positions matter; " + SAMPLES,
      files=["include/utl/parser/cstr.h"], mech=[("cstr", "include/utl/parser/cstr.h"), ("get_until/get_line/strip_cr", "include/utl/parser/cstr.h")]),
 dict(id="C02", title="Text comparison and search agree with the bytes",
      statement="Equality, inequality and ordering of text views agree with bytewise comparison of exactly their contents (including embedded NUL bytes and lengths), prefix test and containment agree with the bytes, and the search for a sub-text yields the smallest offset at which it occurs, or the maximum size if there is none. No comparison or search reads a byte outside the two views.",
      forall="all pairs of views", why="equality on all byte strings cannot be sampled; " + SAMPLES,
      files=["include/utl/parser/cstr.h"], mech=[("comparison operators, starts_with, contains, substr_offset", "include/utl/parser/cstr.h")]),
 dict(id="C03", title="Line and token readers deliver every line and token exactly once, in order",
      statement="For every text, splitting into tokens at a separator, iterating over lines (with or without numbers, as a range, through the line reader over a buffer, which reports the position behind each finished line once, or over a memory-mapped file) delivers exactly the pieces between separators, in order, without gaps or overlaps, without a trailing empty piece, numbered consecutively from 1 where numbered, and stops early exactly when the callback asks to. Line iteration additionally removes one carriage return at the end of a line; line and range readers end with an empty view at the end of the text, the line range view ends at the first empty line, and skipping lines skips exactly the longest prefix of lines accepted by the predicate; line iterators advanced by n stand n lines further on, as the sum of iterator and n does without moving the iterator. All readers terminate and never read outside the text.",
      forall="all texts, separators and callback decisions; mapped files are non-empty", why="must hold for all texts and lengths; the tests read a few literals",
      files=["include/utl/parser/cstr.h", "include/utl/parser/buf_reader.h", "include/utl/parser/line_range.h", "include/utl/parser/mmap_reader.h", "include/utl/parser/mmap_reader_unix.h"],
      mech=[("for_each_token/for_each_line/lines/skip_lines", "include/utl/parser/cstr.h"), ("buf_reader::read_line", "include/utl/parser/buf_reader.h"), ("line_range", "include/utl/parser/line_range.h"), ("mmap_reader", "include/utl/parser/mmap_reader_unix.h")]),
 dict(id="C04", title="Numbers, booleans and strings are parsed exactly",
      statement="Parsing an integer consumes an optional minus (signed types), an optional plus and the maximal run of digits, delivers the exact mathematical value whenever it is representable in the type and the default if there is no digit, and reports success exactly if there is a digit and nothing remains; checked parsing throws exactly when that report would be failure. Parsing a boolean accepts exactly the words true and false in any case, strings, views and paths receive exactly the bytes of the view, and a floating point number (sign, digits, optionally a point and digits) is consumed exactly and delivered with its decimal value up to rounding, however many digits it has. No parse reads outside the view or advances past its end, and no integer parse has undefined overflow on any input.",
      forall="all texts, all integer types of 8 to 64 bits, all defaults", why="value, overflow and consumption must be right for all digit strings; the tests try a few",
      files=["include/utl/parser/arg_parser.h"], mech=[("parse_arg, parse, parse_verify, operator>>, skip_line, expect", "include/utl/parser/arg_parser.h")]),
 dict(id="C05", title="A CSV column is delimited, unquoted and unescaped exactly",
      statement="Parsing a column of a CSV text, for every text and every separator, delivers as content the part from the start (behind an opening quote, if there is one) up to the separator, line break or end of the text, or, if quoted, up to the first quote that is not one of an escaped pair; it consumes the closing quote or carriage return but never the separator, the line feed or anything behind the line, and an empty text leaves the column untouched. Unescaping replaces, from left to right, each pair of quotes by one quote and changes nothing else, and typed values are the parsed value of the content behind leading blanks. No byte outside the text is read.",
      forall="all texts, both tested separators, all contents", why="every combination of quotes, separators and line ends matters; the CSV tests are not even part of the build here",
      files=["include/utl/parser/csv.h"], mech=[("parse_column, unescape_quoted_string, parse_value", "include/utl/parser/csv.h")]),
 dict(id="C06", title="CSV rows are assembled from exactly the columns named in the header",
      statement="For every CSV text whose line breaks are LF or CRLF, the header maps each column (at most 64, otherwise an exception is thrown) to the first wanted column of exactly that name and all others to none, behind an optional UTF-8 byte order mark for the lazy reader; each following line yields one row in order, in which each wanted field has the content of the column mapped to it and is empty or default if the line has none. The eager reader stops at the end of the text or at a single final line break, the lazy one when its source of lines ends, and splitting a line delivers its first columns in order. No byte outside the text and no table entry out of bounds is accessed.",
      forall="all texts with LF or CRLF line breaks, all wanted column names, up to 2^32 rows", why="all widths, orders, duplicates and ragged rows matter; the CSV tests are not part of the build here",
      files=["include/utl/parser/csv.h", "include/utl/parser/csv_range.h", "include/utl/parser/split.h"], mech=[("read_header, read_row, read_rows, read", "include/utl/parser/csv.h"), ("csv_range", "include/utl/parser/csv_range.h"), ("split", "include/utl/parser/split.h")]),
 dict(id="C07", title="Joins partition both sorted sequences into matched and unmatched groups",
      statement="For every two sorted sequences and every strict weak order, the full join delivers each maximal group of equivalent elements of either side exactly once: together with the equivalent group of the other side if there is one, otherwise alone, all groups in ascending order and with exact bounds. The left join delivers the same without the unmatched groups of the right side, the inner join only the matched ones. They terminate and access no element outside the sequences.",
      forall="all pairs of sorted sequences of any length and all strict weak orders over the elements; iterators or containers, with or without explicit order", why="group boundaries at every alignment of the two sides; the tests enumerate a dozen alignments",
      files=["include/utl/join.h"], mech=[("join_impl, inner_join, left_join, full_join", "include/utl/join.h")]),
 dict(id="C08", title="A sorted diff reports exactly the deletions, additions and changes",
      statement="For every two sorted sequences, the diff reports in ascending order each element only the first side has as deleted, each only the second has as added, and each pair of equivalent elements as changed exactly if they are not deeply equal; every element takes part exactly once. It terminates and accesses no element outside the sequences.",
      forall="all pairs of sorted sequences, all strict weak orders and all deep equalities", why="every interleaving of the two sides matters; the test has one",
      files=["include/utl/sorted_diff.h"], mech=[("sorted_diff", "include/utl/sorted_diff.h")]),
 dict(id="C09", title="The power set intersection delivers every pair of equal elements exactly once",
      statement="For every two sorted sequences, the intersection hands exactly the pairs (x, y) of equivalent elements to the callback, each pair once, with the element of the first sequence first. It terminates and accesses no element outside the sequences.",
      forall="all pairs of sorted sequences and all strict weak orders", why="groups of any size on both sides; the test has groups of at most two",
      files=["include/utl/power_set_intersection.h"], mech=[("power_set_intersection, for_each_equal", "include/utl/power_set_intersection.h")]),
 dict(id="C10", title="Windows, zip and enumerate visit the right elements in lockstep, once each",
      statement="For every sequence, n-wise and pairwise iteration delivers exactly the windows of n consecutive elements, in order, none if the sequence is shorter, and their number as the size; enumeration delivers every element with its index, and moving an enumerating iterator by any step keeps element and index together and distances count elements. Zipping delivers the i-th elements of all sequences together, in order, for reading and writing, forwards and backwards and by index; it throws before delivering anything exactly if the sizes differ, and the unchecked variants do the same without the check. Temporaries are kept alive by the range, and no element outside the sequences is accessed.",
      forall="all sequences, all lengths, all positions (windows of 1, 2, 3 and 4; zips of 2, 3 and 4 sequences)", why="short and empty sequences and every offset matter; the tests use a few literals",
      files=["include/utl/nwise.h", "include/utl/pairwise.h", "include/utl/zip.h", "include/utl/enumerate.h"],
      mech=[("nwise_iterator, nwise_range", "include/utl/nwise.h"), ("zip_iterator, zip_range, check_dimensions", "include/utl/zip.h"), ("iterator, enumerate", "include/utl/enumerate.h")]),
 dict(id="C11", title="Equal ranges are the maximal groups of equal elements, in order, without gaps",
      statement="Linear equal ranges deliver, for every sequence, consecutive non-empty groups that cover it completely, each consisting of elements equal to its first one and maximal. Equal ranges first sort the container by the given order and then deliver the maximal groups of equivalent elements in the same way, leaving the sorted elements as they are.",
      forall="all sequences, all equalities, all strict weak orders", why="any number and size of groups; not covered by the tests at all",
      files=["include/utl/equal_ranges_linear.h", "include/utl/equal_ranges.h"], mech=[("equal_ranges_linear", "include/utl/equal_ranges_linear.h"), ("equal_ranges", "include/utl/equal_ranges.h")]),
 dict(id="C12", title="Container helpers change and answer exactly what they say",
      statement="Erasing by value or predicate keeps exactly the other elements in order; erasing duplicates sorts the range and keeps one element of each run of equal ones, leaving everything outside the range untouched; sorted insertion inserts at the element's place unless it is there already and reports position and insertion; concatenation, repetition, filling and collecting into vectors or sets produce exactly the specified elements in order; sorting by a key sequence applies one and the same ordering permutation to copies of all sequences. Get-or-create returns the value of a known key and otherwise creates, inserts and returns exactly one; index assignment gives new keys the number of keys so far. The algorithm wrappers (all, any, none, find, count, sorted, equal, extreme elements, sort, nth element) answer for exactly the whole range.",
      forall="all container contents, lengths, predicates, equalities and strict weak orders; maps via the contract of find/insert", why="any content and position; most helpers have no test",
      files=["include/utl/erase.h", "include/utl/erase_if.h", "include/utl/erase_duplicates.h", "include/utl/insert_sorted.h", "include/utl/concat.h", "include/utl/repeat_n.h", "include/utl/to_vec.h", "include/utl/to_set.h", "include/utl/sort_by.h", "include/utl/get_or_create.h", "include/utl/get_or_create_index.h", "include/utl/helpers/algorithm.h"],
      mech=[("erase family", "include/utl/erase.h"), ("sort_by, apply_permutation", "include/utl/sort_by.h"), ("get_or_create", "include/utl/get_or_create.h"), ("wrappers", "include/utl/helpers/algorithm.h")],
      note="std::sort, std::nth_element, std::set and the map are trusted by contract; the comparator handed to them is proved to be the specified order. "),
 dict(id="C13", title="Pipelines deliver exactly the elements their stages keep, transformed, in order",
      statement="For every source (container, temporary, iterator pair, number range, generator) and every composition of the stages under contract (transform, remove_if, take_while, unique), the pipeline delivers exactly the elements its definition keeps, transformed, in order, each once, and stops where the definition stops; named ranges stay usable, and temporaries are kept alive. The sinks (for_each, count, sum, avg, max, find, accumulate, insert, emplace, vec, iteration) deliver or combine exactly these elements. No element outside the source is read, in particular none behind the end.",
      forall="all sources of any length, all predicates, functions and equalities; about 25 compositions of up to two stages, every sink", why="any content and length; the tests run count, avg and max on literals",
      files=["include/utl/pipes.h"] + ["include/utl/pipes/%s.h" % f for f in "all remove_if take_while transform unique iota generate iterable range make_range for_each count sum avg max find accumulate insert emplace_back map vec".split()],
      mech=[("stages", "include/utl/pipes"), ("make_range", "include/utl/pipes/make_range.h")],
      note="Sums and averages: no overflow of the 64-bit accumulator is assumed. "),
 dict(id="C14", title="Uniformity holds exactly if all elements are equal",
      statement="A range is reported as uniform exactly if all its elements (their images under the given function) are equal, in particular if it is empty, for collections and for iterators, also when the iterators are lvalues, which keep their value. No element outside the range is read.",
      forall="all ranges, all equalities and functions", why="any content and position; the test has two literals",
      files=["include/utl/is_uniform.h"], mech=[("is_uniform", "include/utl/is_uniform.h")]),
 dict(id="C15", title="Scope guards run their action exactly once, however the scope is left",
      statement="A guard made by make_finally or UTL_FINALLY, and a resource made by make_raii unless its omission flag is set, runs its action exactly once when its scope is left, normally, by return or by an exception, in reverse order of creation, the resource guard with the resource as it is at that time. Moving a guard moves the duty: the source runs nothing any more, a guard made from a moved-from guard runs nothing, assignment first runs the action the target still owed, and assigning a guard to itself changes nothing.",
      forall="all actions, resources, exit paths and sequences of moves and assignments of the shapes under contract", why="every exit path counts; the tests have two",
      files=["include/utl/raii.h"], mech=[("raii, finally", "include/utl/raii.h")]),
 dict(id="C16", title="Buffers own exactly their bytes: no leak, no double free, no stale access",
      statement="A buffer made from a size, a text or a view has exactly that many bytes, those of the text, and throws if memory is exhausted; resizing keeps the common prefix of the contents and the object unchanged when it throws. Moving or assigning transfers the bytes without copying and empties the source; every block is released exactly once, also across assignments and self-assignments, and no access is made outside the block or after its release.",
      forall="all sizes, contents, and outcomes of allocation, over the construction, move, assignment and resize operations", why="allocation failure and every sequence of moves matter; there is no test for buffers",
      files=["include/utl/parser/buffer.h"], mech=[("buffer", "include/utl/parser/buffer.h")], note="malloc, realloc, free are trusted by contract over a ghost heap. "),
 dict(id="C17", title="File access delivers exactly the file's bytes or reports an error; no leaks",
      statement="Reading a file through a file handle, a stream or a memory map delivers exactly its bytes, in order (by chunks: the clamped next part, its progress the part consumed; by lines: each line once, including an unterminated last one) or reports the failure by exception or an empty optional; a short read or write is never taken for success, and writing hands over exactly the given bytes. Every handle, descriptor and mapping is released exactly once on every path including failures, moves, assignments and self-assignment, and never used afterwards.",
      forall="all file contents and sizes, all outcomes of the operating system calls, all requested sizes", why="I/O failures and every content cannot be sampled; the tests read one file",
      files=["include/utl/parser/file.h", "include/utl/parser/mmap_reader.h", "include/utl/parser/mmap_reader_unix.h", "include/utl/read_file.h", "include/utl/for_each_line_in_file.h"],
      mech=[("file", "include/utl/parser/file.h"), ("mmap_reader", "include/utl/parser/mmap_reader_unix.h"), ("read_file", "include/utl/read_file.h"), ("for_each_line_in_file", "include/utl/for_each_line_in_file.h")],
      note="stdio, POSIX and stream calls are trusted by contract with every failure outcome. "),
 dict(id="C18", title="Verification throws exactly if the condition is false, with the given message",
      statement="verify, utl_verify, verify_silent and verify_ex return without any effect if the condition is true and throw if it is false: a runtime error whose message is the given format with the given arguments substituted, or exactly the given exception. fail logs the same message to the log stream and returns that error; verify_silent and verify_ex log nothing.",
      forall="all conditions, messages and arguments of the instantiations under contract", why="messages and arguments are arbitrary; the tests only observe that something is thrown",
      files=["include/utl/verify.h"], mech=[("fail, verify, verify_silent, verify_ex, utl_verify", "include/utl/verify.h")], note="Formatting itself (fmt) is an uninterpreted function of format and arguments. "),
 dict(id="C19", title="A progress tracker reports every change, once, and never an outdated output", over=["inputs", "schedules"],
      statement="Every call or chain of calls that changes status, visibility or bounds stores exactly the given values under the tracker's lock, restarts input and output exactly if the bounds changed, and then, not under the lock, calls the callback once if anything changed and not otherwise; invalid bounds throw and change nothing. update, increment and update_monotonic change the input as asked, and afterwards the output is out_low + round((out_high - out_low) * in / in_high / out_mod) * out_mod, clamped to the bounds; the callback is called exactly when the output changed. When concurrent updates have ended the output belongs to the final input, no increment is lost and a monotonic update never lowers the input.",
      forall="all bounds, inputs and outputs, all sequences of changes in one update, all interleavings of concurrent updates (each update verified against everything the others may do)", why="an outdated output needs a particular interleaving; unit tests sample a few bounds",
      files=["include/utl/progress_tracker.h", "src/progress_tracker.cc"], mech=[("progress_tracker", "src/progress_tracker.cc")],
      note="Thread-modular for concurrent updates; finite bounds with a finite range, a finite positive step, bounds not changed while updates run, a callback that does not throw; std::mutex, std::string and floating-point arithmetic are trusted by contract (comparisons are exact). "),
 dict(id="C20", title="Parallel loops run every job once and account for every failure", over=["inputs", "schedules"],
      statement="parallel_for and its variants return after all their threads ended; unless a job failed under QUIT_EXEC every index below the number of jobs is given to the function exactly once, progress is reported exactly once per job that succeeded, and each thread of the thread-local variant gives all its jobs one object of its own, destroyed when it ends. Under CONTINUE_EXEC the result holds exactly the index and exception of each failed job; under QUIT_EXEC no thread claims a job after a failed one of its own nor starts a job after seeing another's failure, and the first exception recorded is thrown. No access of the library races with another one.",
      forall="all numbers of jobs and threads, all outcomes of jobs and progress, all interleavings (each thread verified against everything the others may do)", why="a schedule and a set of failures cannot be sampled; there is no test for parallel_for",
      files=["include/utl/parallel_for.h"], mech=[("parallel_for, parallel_for_run, parallel_for_run_threadlocal", "include/utl/parallel_for.h")],
      note="Thread-modular: a thread's function is verified against what the others may do to the shared state; std::thread, std::mutex, atomics and the growth of std::vector are trusted by contract; fewer than 2^64 claims. "),
 dict(id="C21", title="A thread pool runs each job of an execute once, and waits for all of them", over=["inputs", "schedules", "histories"],
      statement="thread_pool::execute gives every index below the given number of jobs to the given function exactly once, on the pool's threads, and returns when all have finished and no thread is active, at any time of the pool's life; called while jobs are running it throws and changes nothing. Each thread runs the initializer before all and the finalizer after all of its jobs; the destructor returns after all threads ended. No thread waits for a change that was already made, and no access of the library races with another one.",
      forall="all numbers of jobs, executes and threads, all interleavings (each thread verified against everything the others may do)", why="lost wake-ups and stale jobs need a particular schedule; there is no test for thread_pool",
      files=["include/utl/thread_pool.h"], mech=[("thread_pool", "include/utl/thread_pool.h")],
      note="Thread-modular: a worker is verified against what the others may do under the lock; std::thread, std::mutex, std::condition_variable and atomics are trusted by contract; jobs do not throw. "),
 dict(id="C22", title="The registry has one tracker per name and knows the active one", over=["inputs", "histories"],
      statement="get_tracker and activate_progress_tracker return the tracker registered under the name, creating it only if there is none (shown, without status, input 0 of 100, output 0 from 0 to 100 in steps of 1, printing the registry on every change); no other name is affected. The active tracker is the one activated last, by tracker, by name, or by get_active_progress_tracker_or_activate if there was none; get_active_progress_tracker throws exactly if there is none. A new registry is silent and has no trackers, none active and nothing printed; clear forgets all trackers, the active one and the printed height; global_progress_bars sets the silence for its lifetime (not silent by default), restores it and clears; everything happens under the registry's lock, which is never taken twice and always released.",
      forall="all registries, names and trackers", why="the registry is one global state with any history; there is no test for it",
      files=["include/utl/progress_tracker.h", "src/progress_tracker.cc"], mech=[("global_progress_trackers, global_progress_bars, activate_progress_tracker", "src/progress_tracker.cc")],
      note="std::map, std::shared_ptr, std::string and std::mutex are trusted by contract; what is printed is C29. "),
 dict(id="C23", title="A generator delivers exactly what its coroutine yields, and owns it", over=["inputs", "histories"],
      statement="A generator delivers the values its coroutine yields, each once and in order, however often it is asked whether there is one; it answers true exactly if there is another one, and passes on the coroutine's exception instead of answering or losing it; to_vec delivers all values that are left. The coroutine runs only when a value is asked for, at most one value ahead. A moved or assigned generator goes on where its source was; each coroutine is destroyed exactly once, at any point of its run, and never used afterwards.",
      forall="all coroutines (any values, any number, ended by return or exception) and all sequences of questions, moves and assignments", why="the interleaving of asking and taking, and where the coroutine is when it is destroyed or moved, cannot be sampled; there is no test for generators",
      files=["include/utl/generator.h"], mech=[("generator", "include/utl/generator.h")],
      note="The coroutine of the harness is a real one, lowered by clang's own coroutine passes; T = int; taking a value when there is none, and using a moved-from generator, are outside the contract. "),
 dict(id="C24", title="Command line flags take the value given last; missing required ones are errors",
      statement="parse_flags gives each flag the value of the argument behind its last occurrence that has one (short or long form; zero if that is not a number, the bytes of the argument for a text), its default if there is none, and true to a boolean flag exactly if it occurs; no argument outside the given ones is read. It throws a runtime error naming a missing flag exactly if a required flag does not occur or its last occurrence has no argument. The description and the printed values list every flag in order, with its names, a star exactly if it is required, and its description or value, truth values as words.",
      forall="all argument lists (any length, any strings) for the flag sets under contract", why="order, repetition and a flag at the very end matter; the tests parse two fixed command lines",
      files=["include/utl/cmd_line_parser.h"], mech=[("parse_flags, cmd_line_flag", "include/utl/cmd_line_parser.h"), ("description, print_flags", "include/utl/cmd_line_parser.h")],
      note="Argument texts are parsed by the function under contract in C04; cista's for_each_field is replaced by a stand-in that visits the fields in order; strings and string streams are assumed contracts. "),
 dict(id="C25", title="Bit enumeration visits exactly the set bits, in ascending order",
      statement="has_bit_set answers, for every value and every bit below the width of its type, whether that bit is set, and for_each_set_bit gives exactly the set bits to the callback, each once, in ascending order, including the highest and the sign bit. No shift exceeds the width.",
      forall="all values of the 8, 16, 32 and 64 bit types under contract", why="the highest bits of wide and signed types are where such code breaks; there is no test for it",
      files=["include/utl/for_each_bit_set.h"], mech=[("has_bit_set, for_each_set_bit", "include/utl/for_each_bit_set.h")],
      note="Shifts and masks are related to the bits of the value by lemmas instantiated per use (trusted). "),
 dict(id="C26", title="An iterator facade derives every operator from the iterator's primitives",
      statement="For every iterator built on the facade from a documented set of primitives, increments, decrements, additions, subtractions and indexing by distances of any integral type, comparisons, differences, dereferencing and comparisons with the sentinel all agree with the positions, distances and references the primitives define. Post-increment and post-decrement return the old position (nothing for a single-pass iterator), an iterator without random access is only ever advanced by one step at a time, and the iterator category follows from the primitives present. A wrapper around another iterator or pointer behaves as the wrapped one.",
      forall="all positions, all distances (signed or unsigned, 32 and 64 bit) and all meanings of the primitives", why="which operator is derived from which primitive depends on the type of iterator; sign and width of distances break at values tests do not use; there is no test for it",
      files=["include/utl/iterator_facade.h"], mech=[("iterator_facade operators", "include/utl/iterator_facade.h"), ("iterator_wrapper_facade", "include/utl/iterator_facade.h"), ("std::iterator_traits specialisation", "include/utl/iterator_facade.h")],
      note="The primitives of the iterator are an assumed contract (positions are integers); 13 kinds of iterators are instantiated. "),
 dict(id="C27", title="Helpers that pick by type take the first alternative that fits",
      statement="Matching an object against functions calls exactly the first function whose parameter class the object has, with that object, returns its result, and throws std::runtime_error exactly if no function fits. Initialising a structure from another one binds every field to the first field of the source which fits (the same type, or a pointer or owner of it), for sources of up to 31 fields, and yields nothing exactly if a reference has to be bound to the pointee of a null pointer. An overload set calls the function for exactly the type of the argument and ignores arguments of other types.",
      forall="all objects and class hierarchies, all null and non-null pointers, all numbers of fields up to 31 (each in two patterns of equal types)", why="the choice must be right for every object, null pattern and position of the field; the tests have one object and two structures",
      files=["include/utl/match.h", "include/utl/init_from.h", "include/utl/overloaded.h"], mech=[("match", "include/utl/match.h"), ("init_from, to_tuple", "include/utl/init_from.h"), ("overloaded", "include/utl/overloaded.h")],
      note="The result of dynamic_cast is an assumed contract (an arbitrary class hierarchy). "),
 dict(id="C28", title="Log lines, timers and names tell exactly what they are about",
      statement="A log statement writes exactly one line to the log stream: the name of its level, the present time in UTC (whatever the time zone and the year), the file and line of the statement, and everything streamed into it, in order. A timer writes one line when it starts and one for each message or stop, each with its own name, the message and the milliseconds since the timer's construction to the microsecond; the timing macros yield the whole milliseconds or microseconds between start and stop. Naming a thread gives exactly that name to exactly that thread, and the text of an enumerator of a printable enum is exactly its name, without blanks, at every position of every list; a compile-time text constant is exactly its literal, for up to 30 characters.",
      forall="all values and names, all times and readings of the clock, all lists of enumerators", why="time zones, years, elapsed times and positions cannot be sampled; the tests have one enum",
      files=["include/utl/logging.h", "include/utl/timer.h", "src/timer.cc", "include/utl/timing.h", "include/utl/set_thread_name.h", "include/utl/printable_enum.h", "include/utl/const_str.h"],
      mech=[("log, uLOG, time", "include/utl/logging.h"), ("scoped_timer, manual_timer", "src/timer.cc"), ("UTL_START_TIMING .. UTL_GET_TIMING_US", "include/utl/timing.h"), ("set_thread_name", "include/utl/set_thread_name.h"), ("PRINTABLE_ENUM", "include/utl/printable_enum.h"), ("STRING_LITERAL, const_str", "include/utl/const_str.h")],
      note="How the stream prints a value, gmtime_r and strftime are assumed contracts; the milliseconds are specified over the reals. "),
 dict(id="C29", title="Printing the registry shows every tracker on one line, and nothing in silence", over=["inputs", "histories"],
      statement="Printing a registry of progress trackers writes nothing and changes nothing while it is silent. Otherwise it moves the cursor up by the number of lines printed last, if there are any, and writes for each tracker, in the order of the names, one line, cleared first: the name (right-aligned in 12 columns) and, if its progress is shown, a bar of 55 cells of which the i-th is filled exactly if the output has reached floor(100 * i / 55), the output as a whole percentage, and the status unless it is empty, or else just the status. It then remembers the number of these lines and flushes; all of it happens under the registry's lock, status and visibility of each tracker are read under that tracker's own, and every lock is released.",
      forall="all registries (any number of trackers, any names and states) and all outputs, also while they change", why="the number of trackers changes between prints and the bar depends on every output; there is no test for it",
      files=["include/utl/progress_tracker.h", "src/progress_tracker.cc"], mech=[("global_progress_trackers::print", "src/progress_tracker.cc")],
      note="std::map's order, fmt::print, std::cout and std::mutex are trusted by contract; trackers in the registry exist. "),
]
NA = []
