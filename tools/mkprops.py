#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays reviewable)."""
import json
H='libs/cmdr11/include/cmdr11/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[H+f for f in files],
        mechanism=[dict(name=n,where=H+w) for n,w in mech],
        state=state or [],observe_at=observe,hook_needed=None)))

p('C01','A command token selects exactly the sub-command carrying that name',
 "A command-line token selects a sub-command of the current command if and only if it is one of that sub-command's long title, alias or short title (long titles and aliases win over short titles), and then exactly that sub-command's hit record changes. Looking a token up, found or not, leaves the set of names every command answers to unchanged, so the same token resolves to the same sub-command however many lookups came before.",
 ['inputs','histories'],"for every command tree, every token text and every sequence of earlier lookups/parses",
 "Tests parse a few fixed command lines once and mostly print; none looks at the name tables after a failed lookup or parses twice.",
 ['cmdr_impl.hh','cmdr_cmd.hh','cmdr_arg.hh'],
 [('app::matching_command','cmdr_impl.hh'),('app::process_command','cmdr_impl.hh'),('bas::update_hit_count','cmdr_arg.hh'),('parsing_context::curr_command','cmdr_imp1.hh')],
 ['app::run','cmd::find_command','bas::hit_count'])
p('C02','A flag token selects the longest matching flag of the active commands',
 "The flag selected at a position of a flag token is the one, among the flags of every command matched so far and all their parents, whose name (long title or alias for --, short title for -) is the longest prefix of the remaining text; when no name is a prefix nothing is selected. Exactly the selected flag is recorded as hit (once, with the matched text); a flag whose name is merely a shorter prefix is not.",
 ['inputs','programs'],"for every set of flags on the command chain, every token and every iteration order of the name tables",
 "Tests use a handful of flags; the outcome depends on hash-table iteration order, which a test sees only one of.",
 ['cmdr_impl.hh','cmdr_arg.hh','cmdr_string.hh'],
 [('app::matching_flag_on','cmdr_impl.hh'),('app::matching_long_flag / matching_short_flag / matching_special_flag','cmdr_impl.hh'),('bas::update_hit_count','cmdr_arg.hh'),('string::has_prefix','cmdr_string.hh')],
 ['app::run','arg::hit_count','arg::hit_title'])
p('C03','The command handler receives the positional arguments complete and in order',
 "The tail arguments handed to a command's hooks are exactly the positional tokens collected before (in command-line order) followed by every token after the point where parsing stopped (after --, or after the current token), each verbatim and exactly once.",
 ['inputs'],"for every argument vector and every stopping index",
 "Tests use fixed argument vectors and do not compare the tail arguments.",
 ['cmdr_impl.hh','cmdr_cmn.hh'],
 [('app::remain_args (both overloads)','cmdr_impl.hh'),('parsing_context::add_remain_arg','cmdr_cmn.hh'),('app::run','cmdr_impl.hh')],
 ['on_invoke/on_pre_invoke/on_post_invoke remain_args'])
p('C04','Registration makes a flag or command findable under all its names, uniquely',
 "After a flag or command is added to a command it is found under its long title, its short title and each of its aliases, it belongs to the adding command and to its group, and every other name resolves as before. Adding one whose short title, long title or alias is already taken on that command is rejected with the duplicate error of that kind, and the name keeps resolving to the earlier holder.",
 ['inputs','histories'],"for every sequence of registrations with arbitrary titles, aliases and groups",
 "Tests register distinct names only; no test registers a duplicate.",
 ['cmdr_cmd_inl.h','cmdr_cmd.hh','cmdr_arg.hh'],
 [('cmd::add(arg)','cmdr_cmd_inl.h'),('cmd::add(cmd)','cmdr_cmd_inl.h'),('cmd::find_flag / find_command','cmdr_cmd_inl.h')],
 ['cmd::operator[]','cmd::operator()','dup_* exceptions'])
p('C05','The option store returns the last value set for a key and touches no other key',
 "Reading a dotted key from the option store returns the value most recently stored under it by any of the setters, key existence queries (with or without a prefix) answer true exactly for stored keys, and storing under one key changes the value of no other stored key.",
 ['inputs','histories'],"for every sequence of set/get/has with arbitrary dotted keys, prefixes and values",
 "Tests write and print a dozen fixed keys.",
 ['cmdr_var_t.hh','cmdr_var_t_inl.h'],
 [('nodeT::_set / _set_raw / _set_raw_p','cmdr_var_t.hh'),('nodeT::_get_raw / _get_raw_p / has','cmdr_var_t_inl.h'),('storeT facade','cmdr_var_t.hh')],
 ['store::get_raw','store::get_raw_p','store::has','app::get_for_cli'])
p('C06','Dotted keys and title sequences spell the path from the root',
 "The dotted key of a flag or command is the dot-joined list of long titles from the outermost owner down to the item itself, and the title sequence of a command is the space-joined list of the titles of the command and its owners below the root, in the same order.",
 ['inputs','programs'],"for every command tree depth and every title text",
 "Tests have trees at most three deep and never check the path text.",
 ['cmdr_cmd_inl.h','cmdr_arg.hh','cmdr_string.hh'],
 [('bas::dotted_key','cmdr_cmd_inl.h'),('cmd::title_sequences','cmdr_cmd_inl.h'),('string::join','cmdr_string.hh')],
 ['bas::dotted_key','cmd::title_sequences','store keys'])
p('C07','At most one flag of a toggle group is on, and it is the last one given',
 "After a boolean flag that belongs to a toggle group is matched, the group's recorded choice and the stored choice are that flag's long title, that flag's stored value is the given one, every other flag of the same group stored under the same command is false, and flags outside the group keep their values.",
 ['inputs','histories'],"for every toggle group and every sequence of matches of its flags",
 "Tests toggle one group once and only print.",
 ['cmdr_impl.hh','cmdr_cmd_inl.h'],
 [('app::on_arg_matched','cmdr_impl.hh'),('cmd::toggle_group_set','cmdr_cmd_inl.h')],
 ['store values of the group members','cmd::toggle_group'])
p('C08','Command hooks run in order, once, and the exit code is the deciding hook\'s',
 "When a command is invoked, the global then the command's pre-hook run first and a non-zero result (or exception) of either skips the command handler; otherwise the handler runs exactly once, or the not-hooked fallback when there is none. The command's and then the global post-hook run exactly once in every case, including after an exception, and the result is the handler's (or the vetoing pre-hook's) return code.",
 ['inputs','fault_sequences'],"for every combination of installed hooks, return codes and exceptions thrown by hooks",
 "Tests install hooks that return 0 and never throw; the combinations are not enumerated.",
 ['cmdr_impl.hh'],
 [('app::invoke_command','cmdr_impl.hh')],
 ['hook call trace','return value of app::run'])
p('C09','A command never runs while a required flag of it or of a parent is missing',
 "Before a command handler is invoked, if any flag declared required on the command or on any of its owners up to the root was not given, the required-flag error is raised and no handler runs; if all were given no such error is raised.",
 ['inputs','programs'],"for every command chain depth, every flag list and every hit pattern",
 "Tests have a single required flag on one level.",
 ['cmdr_impl.hh'],
 [('app::check_required_flags','cmdr_impl.hh'),('app::after_run','cmdr_impl.hh')],
 ['exception required_flag_missed','handler call trace'])
p('C10','Boolean texts parse to the documented truth values',
 "Reading a boolean from a value text accepts every documented word (1/0, t/f, true/false, y/n, yes/no, on/off, in any case) with its truth value. Whatever is accepted consumed exactly the characters of a documented word of that truth value; a text that is rejected consumes nothing and leaves the value as it was.",
 ['inputs'],"for every input text",
 "Tests parse a few literals.",
 ['cmdr_var_t.hh'],
 [('variable::parse_bool','cmdr_var_t.hh')],
 ['store values after --flag=value / environment override'])
p('C11','Affix, quote and blank stripping remove exactly what they name',
 "Prefix/suffix tests answer exactly whether the text starts/ends with the affix; stripping removes exactly the given prefix and suffix when present, exactly the run of quote characters at both ends, or exactly the run of blanks at the named end(s), and the rest of the text is returned unchanged, for every text including empty and all-strippable ones.",
 ['inputs'],"for every text and affix",
 "Tests print three literals; quotes and all-blank texts are not covered.",
 ['cmdr_string.hh'],
 [('has_prefix / has_suffix','cmdr_string.hh'),('strip / strip_quotes','cmdr_string.hh'),('trim*','cmdr_string.hh')],
 ['return values'])
p('C12','Splitting, joining, tokenising and replacing preserve the text',
 "Joining a list puts its items in order with the delimiter exactly between neighbours (and the optional brackets outside); splitting by a delimiter inverts joining; tokenising yields exactly the maximal runs of non-delimiter characters in order; replacing replaces the first (or every non-overlapping, left to right) occurrence and leaves all other text alone, also when the replacement contains the pattern.",
 ['inputs'],"for every text, delimiter, pattern and replacement",
 "Tests cover one or two literals per helper.",
 ['cmdr_string.hh'],
 [('join','cmdr_string.hh'),('split','cmdr_string.hh'),('tokenize','cmdr_string.hh'),('replace / replace_all','cmdr_string.hh')],
 ['return values'])
p('C13','Integers render as their exact decimal text',
 "Converting any int or unsigned int to text yields its canonical decimal representation (optional minus sign, no leading zeros), writing only inside the result text.",
 ['inputs'],"for all 2^32 int and all 2^32 unsigned values",
 "No test converts more than a few values.",
 ['cmdr_string.hh'],
 [('conv::itoa(int)','cmdr_string.hh'),('conv::itoa(unsigned)','cmdr_string.hh')],
 ['returned text'])
p('C14','The name-similarity measure is a bounded score with identity at 1',
 "The similarity of two names used for did-you-mean is between 0 and 1 and equals 1 for identical non-empty names, 0 when either is empty or no character matches, the recorded distance equals the returned one, and computing it never reads outside the names.",
 ['inputs'],"for every pair of names",
 "Tests compare a few fixed pairs and print.",
 ['cmdr_string.hh'],
 [('jaro_winkler_distance::calc','cmdr_string.hh'),('distance_base::matched','cmdr_string.hh')],
 ['get_distance','matched'])
p('C15','Time helpers split a time exactly and time-format flags stay independent',
 "Breaking a duration down into units yields parts that add up to the duration with every part smaller than the next larger unit, and the fraction helpers of a time point not before the epoch give the milli/micro/nanosecond digits. Selecting a precision leaves the UTC/local choice alone and vice versa, querying the precision or the choice reports exactly the last selection, a time is printed with the 3, 6 or 9 fraction digits selected, and a saved flag state is restored on scope exit.",
 ['inputs','histories'],"for every duration, every time point and every sequence of flag selections",
 "Tests format the current time and a few constants.",
 ['cmdr_chrono.hh'],
 [('detail::break_down_durations','cmdr_chrono.hh'),('time_point_get_ms/us/ns','cmdr_chrono.hh'),('iom::set_flags / has / reset / saver','cmdr_chrono.hh')],
 ['returned tuples and counts','iom::flags'])
p('C16','The priority queue returns every element once, highest priority first',
 "Popping returns an element that no element still queued outranks, each pushed element is returned by exactly one pop, the reported size is always pushes minus pops, and popping an empty queue returns the null element and leaves the queue empty.",
 ['histories'],"for every interleaved sequence of push and pop and every comparer that is a strict weak order",
 "Tests push six elements then pop them all.",
 ['cmdr_priority_queue.hh'],
 [('element::pop','cmdr_priority_queue.hh'),('priority_queue::_push','cmdr_priority_queue.hh'),('priority_queue::push/pop/size','cmdr_priority_queue.hh')],
 ['pop','size','empty'])
p('C17','The message queue neither loses nor duplicates messages',
 "Each message put into the thread-safe message queue (pool::threaded_message_queue) is returned by exactly one take or discarded by clear; a take waits while there is neither a message nor a clear, returns a message that is queued, and reports none exactly when the queue was cleared; a put wakes a waiting take and clear wakes all of them; empty() tells whether a message is queued; and the queue state is only read or written while its lock is held.",
 ['histories'],"for every sequence of put/take/clear calls (each call atomic under the lock)",
 "Tests run one timing-dependent scenario.",
 ['cmdr_pool.hh'],
 [('threaded_message_queue::emplace_back/pop_front/clear/empty','cmdr_pool.hh')],
 ['pop_front','empty'])
p('C18','Help text layout shows every item and all of its description',
 "Column widths computed for a group are the maxima over its visible items, every group of visible items is listed exactly once, and laying a description out at any terminal width terminates, keeps every non-blank character of it in order, and, when the terminal leaves room for at least one character, puts no more than the available width on a line.",
 ['inputs','configurations'],"for every description text, terminal width and title width",
 "Tests print help at whatever width the terminal has.",
 ['cmdr_cmd_inl.h'],
 [('detail::_out_desc','cmdr_cmd_inl.h'),('detail::calc_widths','cmdr_cmd_inl.h'),('detail::sort_keys','cmdr_cmd_inl.h')],
 ['print_commands / print_flags output'])
p('C19','Every subscribed observer gets every event exactly once, in order',
 "Emitting an event calls each currently subscribed live observer or callback exactly once, in subscription order and with the emitted value; an observer no longer subscribed, or no longer alive, is not called, and subscribing or unsubscribing one leaves the others subscribed.",
 ['histories'],"for every sequence of subscribe, unsubscribe, expire and emit",
 "Tests emit one or two events to one or two observers.",
 ['cmdr_common.hh'],
 [('observable::add_observer/remove_observer/emit','cmdr_common.hh'),('observable_bindable::add_callback/emit','cmdr_common.hh'),('signal::connect/emit','cmdr_common.hh')],
 ['observer call trace'])
p('C20','Every task given to the thread pool is eventually executed exactly once',
 "Every task submitted to the thread pool before it is shut down is executed by exactly one worker, and joining returns only after all submitted tasks ran.",
 ['schedules'],"for every schedule of submitters and workers",
 "Schedules are sampled by timing only.",
 ['cmdr_pool.hh'],
 [('pool::queue_task / run / join','cmdr_pool.hh')],
 ['task side effects'])
p('C21','A flag on the command line gets the value given with it',
 "Every flag named in a flag token is matched exactly once, in order (several may be combined in one token; the next one starts right behind the name and value of the one before), and its handler gets the arguments after the last one used. A flag that takes a value gets the one read from the text behind its name (a leading = and the quotes around it left out) or, when that is empty, from the next argument, which is used up then and only then; a text not starting with a quote is taken unchanged, blanks included. A boolean flag becomes false when - follows its name and true otherwise. A part of a token that names no flag is reported as unknown and sets no flag.",
 ['inputs','programs'],"for every set of flags, every flag token, any number of flags combined in it and every list of arguments after it",
 "Tests give a few fixed flags, mostly one per token, and print the outcome; the combinations of names, values, signs and following arguments are unbounded.",
 ['cmdr_impl.hh','cmdr_cmn.hh'],
 [('app::process_flag','cmdr_impl.hh'),('app::process_long_flag / process_short_flag / process_special_flag','cmdr_impl.hh'),('app::run','cmdr_impl.hh'),('parsing_context::add_matched_arg','cmdr_cmn.hh')],
 ['app::run','arg::default_value','the option store','arg::on_flag_hit'])

with open('properties.jsonl','w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q)+'\n')
