import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    len(title)<=80 or print("LONG",id,len(title))
    P.append(d)
BF=['include/Barrier.hxx','src/Barrier.cxx']
bstate=[('waiting','callers gathered for the pass in progress','include/Barrier.hxx'),('barrier_count','completed passes','include/Barrier.hxx'),('corrupted','a waiter timed out','include/Barrier.hxx')]
p('B01','Barrier releases callers only in complete groups, and leaves nobody behind',
 "On a barrier for N threads no call to wait returns normally before N calls of the same pass have been made, and when the Nth call arrives all N of that pass return, whatever the thread interleaving and even if the system wakes a waiter for no reason. The barrier can be passed any number of times, including by a thread that re-enters before the others have left. Callers in excess of a multiple of N stay blocked until enough further calls arrive.",
 ['schedules','histories'],'every interleaving of the threads, every spurious wakeup, every N >= 1, any number of calls and passes; no wait times out',
 'BarrierTest runs one OS schedule with fixed counts and a clock; it cannot reach a preemption between two particular instructions, a spurious wakeup or surplus callers.',
 BF,[('pass counter compared under the lock','src/Barrier.cxx Barrier::wait'),('last arrival resets the count, bumps the pass and notifies all','src/Barrier.cxx Barrier::wait')],['return of Barrier::wait'],bstate)
p('B02','A wait times out at its own deadline: never early, never late, never if 0',
 "A wait reports Timeout only if its own non-zero timeout has elapsed, measured from the call, while its pass was incomplete; so a wait with timeout 0 does not time out (the limit is about 1000 days). A wait with a timeout never stays blocked past its deadline, whatever happens meanwhile: spurious wakeups, other arrivals, other passes. This holds for timeouts given in milliseconds and as a duration.",
 ['schedules','inputs'],'every interleaving, every timeout of up to about 1000 days, every arrival time relative to the deadlines, spurious wakeups included',
 'BarrierTest uses two timeouts on a wall clock and accepts any exception text; early and late firing and re-armed timeouts are invisible to it.',
 BF,[('timed wait on the condition variable with a predicate','src/Barrier.cxx Barrier::wait'),('zero means about 1000 days','src/Barrier.cxx Barrier::wait')],['return of or exception from Barrier::wait, on a virtual clock'],bstate)
p('B03','A barrier that timed out is broken for good: one Timeout, everybody else Corrupt',
 "Once a wait on a barrier has timed out, exactly that one call reports Timeout; every other call that has not already been released, whether waiting at that moment or made later, reports Corrupt without delay. No later call ever gets through, even if N of them arrive, none is left waiting, and none reports a second Timeout. A pass that was completed before the timeout still returns normally to all its callers.",
 ['schedules','histories'],'every interleaving of waiters, timeouts and later callers; mixes of limited and unlimited waits',
 'The should_timeout test only looks for one line of text; it does not check what the other waiters or later callers see.',
 BF,[('corrupted flag set under the lock before notify_all','src/Barrier.cxx Barrier::wait'),('corrupted tested on entry and in the wait predicate','src/Barrier.cxx Barrier::wait')],['exceptions from Barrier::wait'],bstate)
p('B04','Barriers are independent of each other and name themselves in their exceptions',
 "Any number of barriers, of any sizes and with equal or different names, used by the same or different threads, each behave as if they were alone: a pass, a timeout or a failure of one never releases, fails or delays a caller of another. Every Timeout and Corrupt is a Barrier::Exception, a SoDa::Exception and a std::runtime_error, and its text contains the name the barrier was made with and, for a Timeout, the limit in milliseconds.",
 ['schedules','histories','inputs'],'every interleaving of threads that use several barriers, in any order, with or without limits; every name',
 'BarrierTest uses one barrier at a time and compares no text.',
 BF,[('one mutex, condition variable and set of counters per object','include/Barrier.hxx'),('exception classes','src/Barrier.cxx')],['return of or exception from Barrier::wait'],bstate)
MF=['include/MailBox.hxx']
mstate=[('message_queues','one FIFO of shared messages per live subscriber','include/MailBox.hxx'),('subscription_counter','next subscription number','include/MailBox.hxx')]
p('M01','Every subscriber gets every message exactly once, in one common order',
 "A message put (without naming a subscription) by any thread is delivered exactly once to every subscription that is live at that moment. All subscribers see messages in the same order, consistent with each sender's order and with real time, and get returns the oldest undelivered message or null exactly when none is waiting. Concurrent operations behave as if executed one at a time.",
 ['schedules','histories'],'every interleaving of put, get, subscribe and unsubscribe by any number of threads; queues of any length',
 'MailBoxTest checks sums of message counts after all puts are done; it never overlaps puts and gets on a chosen schedule and does not check order across subscribers.',
 MF,[('one mutex around every queue operation','include/MailBox.hxx MailBox::put/get'),('per-subscriber FIFO queues','include/MailBox.hxx message_queues')],['return values of get'],mstate)
p('M02','put naming a subscription skips that subscriber and no other',
 "put(msg, subscription) delivers the message to every live subscriber except the named one. The skipped subscriber keeps whatever was already queued for it and goes on receiving other senders' messages; put without a subscription delivers to the sender too.",
 ['histories','schedules'],'any set of subscribers, any sequence of puts with and without a named subscription, also concurrently',
 'MailBoxTest2 counts messages in a fully symmetric workload, where skipping the wrong subscriber cancels out.',
 MF,[('omit_key comparison in put','include/MailBox.hxx MailBox::put')],['return values of get, readyCount'],mstate)
p('M03','Subscriptions start empty, end cleanly and never disturb each other',
 "A new subscription receives exactly the messages put after it was made. Clearing a subscription discards its queued messages and nothing else; dropping the subscription object or unsubscribing by its number ends delivery to it at once. None of these affects what any other subscriber, earlier or later, has queued or will receive.",
 ['histories','schedules'],'every sequence (and interleaving) of subscribe, put, get, clear, unsubscribe and drop',
 'The tests subscribe once at the start and never clear, unsubscribe or subscribe late.',
 MF,[('fresh queue under a number that is never reused','include/MailBox.hxx MailBox::subscribe'),('erase by number','include/MailBox.hxx MailBox::unsubscribe')],['return values of get, readyCount, subscriberCount'],mstate)
p('M04','MailBox counts tell the truth',
 "readyCount is the number of messages the subscriber could get at that moment, minReadyCount is the smallest such number over all live subscribers (when there is at least one), and subscriberCount is the number of live subscriptions. Asking does not change anything.",
 ['histories','schedules'],'every sequence of operations with at least one subscriber for minReadyCount, any queue lengths, also while other threads operate',
 'No test checks minReadyCount or subscriberCount against a known state.',
 MF,[('queue sizes read under the lock','include/MailBox.hxx readyCount/minReadyCount/subscriberCount')],['return values'],mstate)
p('M05','Misuse of a mailbox is reported and has no effect',
 "Using a subscription with a mailbox other than its own throws SubscriptionMismatch; getting, clearing or counting through one that has been unsubscribed, or unsubscribing an unknown number, throws MissingSubscriber; converting a mailbox to the wrong type throws BadConversion. Each is a SoDa::Exception and a std::runtime_error whose text contains the name of the mailbox, and that of the other mailbox or the unknown number. It leaves every mailbox and queue as it was and usable, and dropping a subscription that was already unsubscribed is harmless.",
 ['histories'],'every sequence of correct and incorrect uses over two or more mailboxes',
 'No test misuses a mailbox.',
 MF,[('owner check in getIndex','include/MailBox.hxx SubscriptionCl::getIndex'),('lookup in getQueue','include/MailBox.hxx getQueue'),('dynamic cast in convert','include/MailBox.hxx MailBoxBase::convert')],['exceptions and subsequent behaviour'],mstate)
p('M06','A message lives exactly as long as somebody can still get or hold it',
 "A message object is destroyed as soon as no live subscription still has it queued and no caller holds it: after the last subscriber has taken and released it, or after clear, unsubscribe, drop of the subscription or destruction of the mailbox discarded the last queued copy; a message put when nobody receives it is destroyed when its sender lets go. It is never destroyed earlier and is the very object that was put.",
 ['histories'],'every sequence of put, get, release, clear, unsubscribe, drop and mailbox destruction',
 'No test observes the lifetime of messages.',
 MF,[('shared_ptr queues popped on get','include/MailBox.hxx MailBox::get'),('queue emptied on clear, unsubscribe and destruction','include/MailBox.hxx')],['destructor of the message type'],mstate)
FF=['include/Format.hxx','src/Format.cxx']
fstate=[('format_string_segments','literal text and open placeholders','include/Format.hxx'),('cur_arg_number','number of the next value','include/Format.hxx')]
p('F01','Format puts the n-th value at every %n and changes nothing else',
 "The n-th value added (counting from 0) replaces every occurrence of placeholder %n, where n is the longest run of digits after the %, in any order of placeholders and however often they repeat. %% yields one %, any other % and all other text are kept as they are, and inserted values are never scanned for placeholders themselves. Placeholders whose value has not been added yet remain visible as %n.",
 ['inputs','histories'],'every format string, any placeholder numbers below 1000, any values of any kind, as many values as the highest placeholder calls for or fewer',
 'FormatTest uses a few fixed strings in which placeholders appear once and in order.',
 FF,[('character scanner','src/Format.cxx Format::initialScan'),('insertField','src/Format.cxx Format::insertField'),('str','src/Format.cxx Format::str')],['Format::str'],fstate)
p('F02','Reading a Format has no side effects; reset makes it new; str(true) is strict',
 "str() and stream output can be called at any point and any number of times without changing the result. str(true) throws BadFormat, a SoDa::Exception and std::runtime_error whose text contains the original format string, exactly when some placeholder has not been filled. After reset() the object behaves as if newly constructed from the same format string. A copy of a Format behaves like the original from then on, and neither affects the other.",
 ['histories','inputs'],'every interleaving of add, str, stream output, reset and copying on any format string',
 'No test calls reset twice, reads in the middle, or uses str(true).',
 FF,[('str','src/Format.cxx Format::str'),('reset','src/Format.cxx Format::reset')],['Format::str, operator<<'],fstate)
p('F03','addI writes every int exactly, with separators, width and fill as asked',
 "addI writes the decimal value of any int, with a leading - if negative. With a separator, one is placed between every group of three digits counted from the right and nowhere else (none next to the sign). The result is padded on the left with the fill character (space by default) to at least the given width and never truncated.",
 ['inputs'],'every int, every width up to a few hundred, every separator and fill character',
 'FormatTest checks four positive values.',
 FF,[('addI','src/Format.cxx Format::addI')],['Format::str'])
p('F04','addU writes every unsigned long exactly in decimal, hex and octal, grouped',
 "addU writes the value of any 64 bit unsigned number: in decimal (d), padded on the left with spaces to the width; in hex (x, h lower case, X, H upper case) as 0x followed by at least width digits; or in octal (o) with a leading 0, zero filled to the width. With a separator, one is placed between every group_count digits counted from the right, never first, last, doubled, or next to the 0x or the leading octal 0. Nothing is ever truncated.",
 ['inputs'],'every unsigned long, format letter of d x X h H o, width up to a few hundred, separator and group count >= 1',
 'FormatHexTest checks a handful of values and widths.',
 FF,[('addU, toHex, toOct','src/Format.cxx')],['Format::str'])
p('F05',"addF 'e' is correct engineering notation for every finite double",
 "For every finite non-zero double, addF with 'e' and s significant digits (1 to 12) writes a sign column (space or -), an integer part from 1 to 999, the remaining digits after the radix separator if any are left, and e with a signed exponent that is a multiple of 3. The digits are the value rounded to the nearest with s significant digits (a value within floating point error of a tie may go either way), rounding carries correctly into the next digit, group or exponent. The field is padded with trailing spaces to at least the width, as is that of a zero, and the call always terminates.",
 ['inputs'],'every finite non-zero double including the smallest, the largest and values next to powers of 10 and 1000; 1 to 12 significant digits; any width',
 'FormatTest samples values below 50000 times 1e-18..1e18 with at most 4 digits and a loose relative tolerance.',
 FF,[('log1k, fractionate, getIntPartWidth','src/Format.cxx'),("case 'e'",'src/Format.cxx Format::addF')],['Format::str'])
p('F06','addF f, s and g are exact decimal conversions; nan and infinities stay visible',
 "addF with 'f' writes the value with the given number of digits after the radix point, 's' in scientific notation with that many digits after the point, and 'g' in the shorter general notation with that many significant digits, each correctly rounded for every finite double and with a leading - if it is negative, also if it is -0 or rounded to zero. A NaN is written as nan and infinities as inf and -inf in every notation. The text is left justified and padded with spaces to at least the width, never truncated.",
 ['inputs'],'every double, notations f s g (and e for nan and infinities), precision 0 to 17, any width',
 'FormatTest checks s and g with a loose tolerance and never f; FormatNaN only prints.',
 FF,[('stream conversions','src/Format.cxx Format::addF'),('nan and inf handling','src/Format.cxx Format::addF')],['Format::str'])
p('F07','addS, addC and addB insert text, characters and booleans unaltered',
 "addS inserts the string byte for byte, right justified with spaces if width is positive and left justified if it is negative, never truncated; addC inserts exactly the character; addB inserts T or F.",
 ['inputs'],'every string and character (spaces, %, quotes, control and high-bit bytes), every width between -300 and 300',
 'Only two trivial strings and both booleans are tested.',
 FF,[('addS, addC, addB','src/Format.cxx')],['Format::str'])
p('F08','Classes extended from Format_ext format like Format and chain as themselves',
 "For a class derived through Format_ext, every add method accepts the same arguments (including a fill character, 64 bit unsigned values and all defaults), produces the same text as the corresponding method of Format, and returns the derived object so that the class's own methods can be chained in any order. A copy of such an object is independent of the original and chains to itself.",
 ['inputs','histories'],'every chain of add methods with every argument combination, mixed with a method of the derived class and with copying',
 'No test uses Format_ext; only an example program does.',
 ['include/Format.hxx'],[('forwarding methods','include/Format.hxx Format_ext')],['str of the derived object'])
p('F09','The radix separator replaces the decimal point in every notation, and only there',
 "With Format::separator set to a character, numbers written by addF in the notations e, f, s and g use that character instead of '.' between integer and fraction digits and are otherwise the same text as with '.'. Literal text, strings, characters, integers and values already inserted are unaffected, and setting it back to '.' restores the normal text.",
 ['inputs','histories'],'every double, notation, precision; separators such as comma, semicolon, underscore; changes between calls',
 'No test sets the separator.',
 FF,[('static separator','src/Format.cxx Format::addF')],['Format::str'])
OF=['include/Options.hxx','src/Options.cxx']
ostate=[('long_map/ab_map','registered options','include/Options.hxx'),('present','the option appeared','include/Options.hxx OptBase'),('pos_arg_vec','positional arguments','include/Options.hxx'),('waiting_for_signed','next token is a value even if it starts with -','include/Options.hxx')]
p('O01','Option values reach their targets; else defaults; last wins; vectors collect',
 "After a successful parse every scalar option that was given a value holds the converted value of its last occurrence, by long or by short name; one that was not given one holds its default (or the zero value of its type); a flag is true exactly if it appeared. A vector option holds what it held before plus the value of each occurrence in order. No option affects the target of another.",
 ['inputs','histories'],'every set of int, unsigned, long, double, string, bool, flag and vector options and every well formed command line for it',
 'OptionsTest always exits with 0, whatever was parsed.',
 OF,[('token loop','src/Options.cxx Options::parse'),('setVal','include/Options.hxx Opt, OptVec, OptPresent')],['target variables'],ostate)
p('O02','Every other token is a positional argument, in order',
 "Each token that is neither an option nor the value of one, including a lone - and --, becomes a positional argument, in command line order, with its text unaltered. getPosArgs, numPosArgs and getPosArg agree on them, and getPosArg gives an empty string for any index that is out of range.",
 ['inputs'],'every well formed command line; every index',
 'OptionsTest has one line and checks nothing.',
 OF,[('token loop','src/Options.cxx Options::parse'),('getPosArg','src/Options.cxx')],['getPosArgs, getPosArg, numPosArgs'],ostate)
p('O03','Bad command lines are refused with a diagnostic, never an escaping exception',
 "If a line contains an unknown option, a value that cannot be converted to the option's type, or a value the option's acceptance test rejects, parse returns false, throws nothing, and writes a diagnostic to standard error that contains the offending token (for a value also the option's long name and its error message). A rejected value is not stored in the target. If none of these occurs (and help is not asked for) parse returns true.",
 ['inputs'],'every command line with a defect of one of these kinds in any position, for every option type, scalar and vector',
 'No test passes a bad line.',
 OF,[('exceptions caught in parse','src/Options.cxx Options::parse'),('conversion and test function','include/Options.hxx setVal')],['return value, stderr'],ostate)
p('O04','isPresent tells whether an option appeared, by either name',
 "After a parse isPresent is true for an option exactly if it appeared on the line under its long or its short name, with or without a value and in any position including the last, and asking by long and by short name gives the same answer. Having a default value does not make an option present, and names that were never registered are never present.",
 ['inputs'],'every option kind, every well formed line, both names',
 'OptionsTest ignores the outcome.',
 OF,[('setPresent','src/Options.cxx Options::parse'),('isPresent','src/Options.cxx')],['isPresent'],ostate)
p('O05','An option takes the right next token as its value, switch-like or not',
 "An option of signed numeric type (scalar or vector) and an option added without a default always take the next token as their value, even if it starts with -, so negative numbers work and the token is not taken for another option. Any other option that can take a value (unsigned, bool or string, with default, or a vector of those) leaves a following token that starts with - and a further character to be read as an option of its own. Flags never take a value.",
 ['inputs'],'every pair of option kind and following token: negative numbers, registered switches, plain words',
 'No test uses a negative value.',
 OF,[('isSwitch, waiting_for_signed, hasDefault','src/Options.cxx')],['target variables, isPresent, positional arguments'],ostate)
p('O06','The three ways to pass a command line agree',
 "Parsing argc/argv (without the program name), the same tokens as a list, or a single string in which they are separated by any amount of white space and double quotes enclose tokens with blanks or empty tokens, has the same result: return value, targets, presence and positional arguments.",
 ['inputs'],'every list of tokens that do not themselves contain double quotes',
 'OptionsTest uses only one entry point per line and checks nothing.',
 OF,[('buildTokenList','src/Options.cxx')],['all outcomes of parse'],ostate)
p('O07','One parse does not leak into the next',
 "Parsing again with the same Options object reads the new line on its own: an option left without a value at the end of one line, or a value refused in it, does not change how the tokens of a later line are understood. Results accumulate: targets keep their values unless set again, vectors and positional arguments are appended to, and presence is kept.",
 ['histories'],'every sequence of lines given to one parser, including refused ones and ones that end in an option',
 'Every test parses once per object.',
 OF,[('state reset at the start of parse','src/Options.cxx Options::parse')],['all outcomes of later parses'],ostate)
p('O08','key=value lists set the same options, with any value text',
 "A comma separated list (or a list of items) of key=value pairs sets the options with those long names: the key ends at the first =, the value is everything after it, may be empty for a string, start with - or contain further = signs. Blanks around items and empty items are ignored, a bare key marks the option present without giving it a value, and an unknown key or unacceptable value makes the parse return false without an escaping exception.",
 ['inputs'],'every list of pairs over options of every kind; values without commas and without runs of blanks',
 'No test uses key=value lists.',
 OF,[('parseKeyValue','src/Options.cxx')],['targets, isPresent, return value'],ostate)
p('O09','Help shows every option and is available by -h and --help',
 "printHelp writes every info string in the order added and then, for every registered option, its long name, its short name and its description. A line on which -h or --help stands where an option may stand makes parse write that help to standard error and return false, without acting on the tokens after it.",
 ['inputs'],'every set of options and info strings; -h or --help in any option position',
 'No test looks at help output.',
 OF,[('printHelp','src/Options.cxx Options::printHelp'),('help switches','src/Options.cxx Options::parse')],['printHelp output, stderr, return value'],ostate)
UF=['include/Utils.hxx','src/Split.cxx']
p('U01','squashSpaces normalises blanks and keeps everything else',
 "squashSpaces returns the string without leading and trailing spaces and with every inner run of spaces replaced by a single one; all other characters, tabs included, are kept in order. It does so for every string, including the empty one and strings of spaces only, and applying it again changes nothing.",
 ['inputs'],'every string',
 'SplitTest has three fixed strings.',
 UF,[('squashSpaces','src/Split.cxx')],['return value'])
p('U02','split and splitVec cut at every delimiter and lose nothing',
 "split squashes blanks as squashSpaces does and then cuts the string at every occurrence of any of the delimiter characters, giving the pieces in order; an empty last piece is not reported. With no_empty set, exactly the empty pieces are left out. splitVec gives the same pieces as a vector.",
 ['inputs'],'every string, every set of delimiter characters, both settings of no_empty',
 'SplitTest has three fixed strings.',
 UF,[('split, splitVec','src/Split.cxx')],['return value'])
PF=['include/PropertyTree.hxx','src/PropertyTree.cxx','include/PropertyTreeYAML.hxx','src/PropertyTreeYAML.cxx']
pstate=[('root','the tree','include/PropertyTree.hxx'),('dictionary','children by key','include/PropertyTree.hxx PropNode'),('prop_list','list items','include/PropertyTree.hxx PropNode')]
p('P01','Every scalar of a YAML file can be read by its path, with its type',
 "After reading a YAML file, get with the keys of nested maps joined by ':' delivers exactly the scalar stored there, at any depth: an int, unsigned, double or the whole string including inner blanks, or empty. The same holds for getProp on the tree's nodes followed by get on the node found, and looking up a path never changes the tree.",
 ['inputs'],'every tree of maps and scalars (keys without colons and surplus blanks), every path in it',
 'PropertyTreeYAML_Test loads one file and dumps it; it never looks anything up.',
 PF,[('getProp, getPropRecursive','src/PropertyTree.cxx'),('typed get','include/PropertyTree.hxx')],['get, getProp'],pstate)
p('P02','A missing property or one of the wrong type is told apart from a value',
 "Asking for a path that does not lead to a node makes get return false and getProp return null, or throw PropertyNotFound when exceptions were requested; a path that goes on beyond a scalar or uses a wrong key anywhere does not lead to a node. A node whose text cannot be read as the requested type (or that holds no text) makes get return false, or throw BadPropertyType when requested. Both exceptions are SoDa::Exceptions whose text contains the path asked for; that of BadPropertyType also contains the text found there and differs with the type asked for.",
 ['inputs'],'every tree, every path that is absent or partly present, every type mismatch, both settings of throw_exception',
 'No test looks up anything.',
 PF,[('getPropRecursive','src/PropertyTree.cxx'),('typed get','include/PropertyTree.hxx')],['return values and exceptions'],pstate)
p('P03','Keys and lists of a node mirror the YAML map or sequence',
 "getKeys of a map's node is exactly the set of its keys, each once, and getList of a sequence's node, found under the sequence's key, gives its items in file order: scalars with their text, maps and sequences as nodes with their own keys and lists. A map's node has no list items and a sequence's node has no keys; a sequence never adds to the keys or list of the node that contains it.",
 ['inputs'],'every nesting of maps, sequences and scalars below the top level map',
 'PropertyTreeYAML_Test dumps one file and compares nothing.',
 PF,[('fillRecurse','src/PropertyTreeYAML.cxx'),('getKeys, getList','src/PropertyTree.cxx')],['getKeys, getList'],pstate)
p('P04','Reading a second file adds to the tree',
 "After reading several files into one tree, every path of every file can be looked up: maps with the same key are merged at every depth, and where several files give a scalar or a sequence at the same path the last one read counts. Nothing that a later file does not mention is lost or changed.",
 ['histories','inputs'],'every sequence of files whose maps overlap arbitrarily (a path that is a map in one file is a map in every file that has it)',
 'No test reads two files.',
 PF,[('fillRecurse','src/PropertyTreeYAML.cxx')],['get, getKeys'],pstate)
p('P05','The path name of a node leads back to that node',
 "For every node reached through maps, getPathName gives the keys from the top joined by ':', and looking that name up in the tree finds the same node again. The top node's path name is empty.",
 ['inputs'],'every node of every tree of maps and scalars',
 'No test calls getPathName.',
 PF,[('getPathName','src/PropertyTree.cxx')],['getPathName, getProp'],pstate)
p('P06','A file that cannot be loaded is reported as such and harms nothing',
 "Reading a file that does not exist throws FileNotFound, and reading one that is not well formed YAML throws BadSyntax, from the constructor and from readFile alike; both are SoDa::Exceptions, and FileNotFound's text contains the file name. The tree keeps everything it held before and remains usable.",
 ['inputs','histories'],'missing files and malformed texts, before and after successful loads',
 'No test loads a bad file.',
 PF,[('readFile','src/PropertyTreeYAML.cxx PropertyTreeYAML::readFile')],['exceptions, subsequent lookups'],pstate)
p('P07','dump writes the whole tree as text, in order, and changes nothing',
 "dump of a tree or of a node writes, after what the stream already holds, every scalar under its key and every item of every sequence: for a map a line <<<DICTIONARY>>> and then, in byte order of the keys, the indentation, the key, a colon, two blanks and the text of a scalar, or a new line and the dump of the node with an indentation of two more blanks; for a sequence a line <<<PROPLIST>>> and then the items in order, scalars indented on a line of their own and others dumped with two more blanks; nothing for an empty node. It returns the stream it was given, and the tree is unchanged.",
 ['inputs','histories'],'every tree made by reading any sequence of files, any node in it, any indentation',
 'No test looks at the output of dump.',
 ['include/PropertyTree.hxx','src/PropertyTree.cxx'],[('recursive dump','src/PropertyTree.cxx PropertyTree::dump, PropNode::dump')],['text written to the stream'],pstate)
p('C01','Separate objects are independent, also when used by threads at the same time',
 "Threads that each use only objects of their own (Format and extensions of it, Options, PropertyTree and its nodes, MailBox and Subscription) and the free functions split, splitVec and squashSpaces get exactly the results that each of them would get if no other thread existed, however their calls interleave. This also holds when they make the very same calls at the same time, and when objects are created and destroyed meanwhile. (Format::separator is one setting for the whole process; nobody assigns it meanwhile.)",
 ['schedules','histories','inputs'],'every interleaving of any threads that share no object; any calls with any arguments on the objects',
 'Apart from Barrier and MailBox every test has a single thread, so state shared behind the objects (static buffers, caches, counters) has no effect on any of them.',
 ['include/Format.hxx','src/Format.cxx','src/Split.cxx','include/Options.hxx','src/Options.cxx','include/PropertyTree.hxx','src/PropertyTree.cxx','src/PropertyTreeYAML.cxx','include/MailBox.hxx'],[('all working state is in the object or local to the call','src/Format.cxx, src/Split.cxx, src/Options.cxx, src/PropertyTree.cxx, src/PropertyTreeYAML.cxx, include/MailBox.hxx')],['return values, exceptions and output of all public functions'])
p('C02','An object that nobody changes can be read by several threads at once',
 "While nobody changes a property tree, a Format or an Options object, any number of threads may use its reading operations at the same time (getProp, get, getKeys, getList, getPathName and dump of a tree and its nodes, whether the path exists or not; str, str(true), stream output and copying of a Format; isPresent, getPosArg, getPosArgs, numPosArgs and printHelp of an Options object). Each call gives exactly the result it would give alone, however the calls interleave, and the object is afterwards what it was.",
 ['schedules','inputs'],'every interleaving of any threads that only read the same object; any tree, format or set of options, any paths and questions',
 'No test reads one of these objects from two threads; a cursor, cache or entry made while reading gives every single reader the right answer.',
 ['include/Format.hxx','src/Format.cxx','include/Options.hxx','src/Options.cxx','include/PropertyTree.hxx','src/PropertyTree.cxx'],[('reading operations change nothing in the object','src/PropertyTree.cxx getProp, getPropRecursive, getKeys, getList, getPathName, dump; src/Format.cxx str, operator<<; include/Options.hxx and src/Options.cxx isPresent, getPosArg, printHelp')],['return values, exceptions and output of the reading functions'])
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
