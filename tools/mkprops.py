import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
I='include/rapidcheck/'
p('C01','A check is a deterministic function of property, parameters and seed',
 'Running the same deterministic property twice with the same test parameters (seed, max_success, max_size, max_discard_ratio, noshrink) executes the same sequence of test cases with the same generated values, tries the same shrinks, and yields the same result, counterexample, distribution and reproduction data. This holds whether the runs are in the same process after arbitrary other checks, nested in another check, or in a different process, and different seeds give different test cases.',
 ['inputs','histories','configurations'],'all deterministic properties built from library generators, all parameters, all preceding activity in the process',
 'Tests run each property once under one fixed seed; hidden state carried from one check to the next, or address- or time-dependence, only shows when histories differ.',
 ['src/detail/Testing.cpp','src/Random.cpp',I+'gen/Arbitrary.hpp',I+'gen/detail/ExecRaw.hpp'],
 [('seeded splittable generator, one split per case','src/detail/Testing.cpp searchProperty'),('generators are pure functions of (random, size)',I+'Gen.hpp')],
 ['test listener events','arguments seen by the property body','TestResult'])
p('C02','A reported failure can be replayed exactly from its reproduction data',
 'For every failing deterministic property, the reproduction data in the result, also after being printed as a reproduce configuration string and parsed back, makes the check run exactly the reported minimal counterexample and report the same counterexample and failure description, running no test case other than those on the way to it, and with shrinking disabled exactly the unshrunk failing case. Under a non-empty reproduce set, properties it does not name are not run and count as success, and reproduction data whose shrink path does not exist or no longer fails gives an error, never a success.',
 ['inputs','programs','configurations'],'all failing properties, shrink paths of any length, any set of property names',
 'Tests replay a few mocked paths; whether every (seed, size, path) found by a real search survives printing, parsing and re-walking depends on the whole generator stack being replayable.',
 ['src/detail/Testing.cpp','src/Check.cpp','src/detail/StringSerialization.cpp','src/detail/Base64.cpp','src/detail/ReproduceListener.cpp',I+'shrinkable/Operations.hpp'],
 [('shrink path recorded per accepted shrink','src/detail/Testing.cpp shrinkTestCase'),('path walk on a regenerated shrink tree',I+'shrinkable/Operations.hpp walkPath'),('RC_PARAMS reproduce hint','src/detail/ReproduceListener.cpp')],
 ['FailureResult.reproduce','text printed by the reproduce listener','arguments seen by the property body'])
p('C03','Verdicts and test counts are truthful',
 'A check reports success only after exactly max_success test cases passed and none failed; it reports failure if and only if an executed test case failed, right after that case, and with the count of cases that passed before it; it gives up if and only if discarded cases exceed max_discard_ratio times max_success. Listeners see every executed test case once, in order, then every shrink tried, then the final result once.',
 ['inputs','programs','configurations'],'all sequences of case outcomes (pass, fail, discard, exception) and all parameters, including zero and very large ones',
 'Tests use a handful of outcome patterns; the accounting has to be right for every interleaving of passes and discards and every parameter value.',
 ['src/detail/Testing.cpp','src/Check.cpp',I+'Check.hpp','src/detail/MulticastTestListener.cpp'],
 [('search loop accounting','src/detail/Testing.cpp searchProperty'),('result mapping','src/detail/Testing.cpp doTestProperty')],
 ['test listener events','log of property body executions','TestResult and return value of rc::check'])
p('C04','Test sizes ramp from zero to max_size as specified',
 'The n-th test case after n-1 passes without recent discards is generated at a size in [0, max_size]; in a run of at least max_size+1 cases each full round uses every size from 0 to max_size once in increasing order, any remaining two or more cases are spread in non-decreasing order from 0 up to and including max_size, and a single remaining case uses 0. Consecutive discards raise the size by one for each ten, and the raise is dropped at the next pass.',
 ['configurations','inputs'],'all max_success and max_size (including products beyond 32 bits) and all patterns of discards',
 'Tests sample a few parameter pairs of moderate magnitude; the spread has to hold for every pair.',
 ['src/detail/Testing.cpp'],[('size schedule','src/detail/Testing.cpp sizeFor')],['size argument passed to the property generator'])
p('C05','Shrinking is a greedy descent that ends in a local minimum',
 'After a failure, the shrinks of the current failing case are tried one at a time in order and the first one that fails becomes the current case; passing and discarded shrinks are never adopted, and the search ends exactly when no shrink of the current case fails. The reported counterexample and description are those of that last case, the reported path lists the index of each adopted shrink, and with shrinking disabled the original failing case is reported with an empty path.',
 ['inputs','programs'],'all shrink trees (any branching, depth and laziness) and all assignments of outcomes to their nodes',
 'Tests use two or three fixed trees; the guarantee quantifies over every tree and outcome assignment.',
 ['src/detail/Testing.cpp',I+'shrinkable/Operations.hpp',I+'Shrinkable.hpp'],
 [('shrink loop','src/detail/Testing.cpp shrinkTestCase')],['onShrinkTried events','FailureResult'])
p('C06','Test case outcomes are classified as documented',
 'A test case fails if and only if a failure was reported in it (failed assertion, RC_FAIL, false, non-empty string, any escaped exception or gmock-style reported result) and no discard was; a discard (RC_PRE, RC_DISCARD, generation failure) always wins, and otherwise it passes, RC_SUCCEED ending it early. All failure messages, the asserted expressions and their actual values, and the log are in the description, assertion macros evaluate their argument exactly once, and exception assertions accept precisely the matching throws.',
 ['programs','inputs'],'all sequences of assertions, reported results, returns, throws and log writes in a property body, with arbitrary values',
 'Tests cover each macro alone with a sample of values; combinations and order (failure then discard, several failures, log then throw) are unbounded.',
 ['src/detail/Property.cpp',I+'detail/Property.hpp',I+'Assertions.h',I+'Assertions.hpp','src/detail/Assertions.cpp',I+'detail/Capture.h','src/Log.cpp'],
 [('result folding','src/detail/Property.cpp AdapterContext::reportResult'),('exception mapping',I+'detail/Property.hpp PropertyAdapter'),('assertion expansion',I+'Assertions.h')],
 ['CaseDescription of each executed case'])
p('C07','Scalar generators stay in their domain, in every shrink',
 'Every value of a numeric, range, boolean, character, duration, optional or enumerated generator, and every value reachable from it by any number of shrinks, lies in the declared domain (half-open range bounds, sign, non-zero, element set, text without NUL), for all types and bounds up to the extremes of the type. Integers shrink toward zero (or the range minimum) with magnitude never growing, and size 0 yields the smallest value.',
 ['inputs'],'all integral and floating types, all bounds including type extremes, all sizes and random states, all shrink paths',
 'Tests check sampled roots and mostly first-level shrinks with moderate bounds; extremes and deep paths are where arithmetic overflows.',
 ['src/gen/Numeric.cpp',I+'gen/Numeric.hpp',I+'shrink/Shrink.hpp','src/gen/detail/ScaleInteger.cpp',I+'gen/Text.hpp','src/gen/Text.cpp',I+'gen/Chrono.hpp',I+'gen/Maybe.hpp',I+'gen/Select.hpp'],
 [('scaled range generation','src/gen/detail/ScaleInteger.cpp'),('shrink::integral/towards/real/character',I+'shrink/Shrink.hpp')],
 ['values of the shrink tree'])
p('C08','Filters and selections hold at every node of the shrink tree',
 'A generator restricted by suchThat, nonEmpty, distinctFrom or a sign predicate never yields, at the root or at any shrink, a value violating the predicate, retries with growing size and reports a generation failure (discarding the test case) rather than a wrong value if none is found. elementOf, sizedElement, oneOf, sizedOneOf, weightedElement and weightedOneOf only yield given elements or generators\' values, never one of weight zero, and shrink only within what they selected.',
 ['inputs'],'all predicates, element lists, weights, sizes and random states, all shrink paths',
 'Tests sample roots with simple predicates; the guarantee is about every node of every tree.',
 [I+'gen/Transform.hpp',I+'gen/Predicate.hpp',I+'gen/Select.hpp',I+'shrinkable/Transform.hpp'],
 [('filtering of shrink trees',I+'shrinkable/Transform.hpp filter'),('retry with growing size',I+'gen/Transform.hpp SuchThat'),('weight selection',I+'gen/Select.hpp')],
 ['values of the shrink tree','GenerationFailure'])
p('C09','Generated containers keep their shape and uniqueness while shrinking',
 'Generated containers, strings and arrays have at most size elements, or exactly the requested count, each drawn from the element generator, at the root and at every shrink; sets, maps and unique containers never contain two elements equal in the deciding key. Shrinks either remove elements (never for a fixed count) or shrink one element with all others unchanged and in order; tuples and pairs shrink one component at a time.',
 ['inputs'],'all container types, element generators, counts, sizes, random states and shrink paths',
 'Tests check a few containers near the root; invariants have to survive arbitrary shrink paths.',
 [I+'gen/Container.hpp',I+'gen/Tuple.hpp',I+'shrink/Shrink.hpp',I+'shrinkable/Create.hpp'],
 [('generic/unique container strategies',I+'gen/Container.hpp'),('shrinkRecur',I+'shrinkable/Create.hpp')],
 ['values of the shrink tree'])
p('C10','Generators and shrinkables are immutable values independent of lifetime',
 'A generator yields the same complete shrink tree for the same random state and size however often, in whatever order and from whichever copy it is evaluated or traversed, and evaluating one never changes another. Building a generator, sequence or shrinkable leaves the objects it is built from unchanged, and values, shrink sequences and shrinkables stay valid and unchanged after the generator, parent shrinkable or sequence they came from is copied over, moved from or destroyed.',
 ['histories','inputs'],'all library generators and combinators, all interleavings of copying, moving, destroying and traversing',
 'Tests traverse a tree once, with everything alive; aliasing and lifetime faults need particular histories.',
 [I+'Gen.hpp',I+'Shrinkable.hpp',I+'Seq.hpp',I+'gen/Container.hpp',I+'seq/Transform.hpp'],
 [('shared immutable implementation with reference counts',I+'Shrinkable.hpp, '+I+'Gen.hpp'),('deep copy of sequences',I+'Seq.hpp')],
 ['digests of shrink trees','AddressSanitizer'])
p('C11','Lazy sequences behave as the lists they denote',
 'Every sequence constructor and combinator (just, fromContainer, range, iterate, repeat, index, map, filter, mapMaybe, cast, take, drop, takeWhile, dropWhile, concat, join, mapcat, zipWith, last, at, contains, all, any, equality, hashing of traversal by iterators and so on) produces exactly the elements of the corresponding list operation, in order, for any nesting. A copied sequence continues from the same position independently of the original, evaluation is lazy, and a sequence whose source throws ends instead of propagating.',
 ['programs','inputs'],'all expressions over the sequence combinators, all element lists, all interleavings of consuming copies',
 'Tests check each combinator alone; composition, partial consumption and copying mid-way multiply without bound.',
 [I+'Seq.h',I+'Seq.hpp',I+'seq/Create.hpp',I+'seq/Transform.hpp',I+'seq/Operations.hpp',I+'seq/SeqIterator.hpp'],
 [('sequence combinators',I+'seq/Transform.hpp')],['elements returned by next()'])
p('C12','Shrinking makes progress, terminates and finds minimal values',
 'Shrink trees of integers, reals, characters, strings, containers, tuples and enumerations are finite on every path, contain no value that repeats its ancestor, and every shrink sequence ends. For a property that fails exactly for integers at or beyond a threshold in the shrink order, checking reports precisely that threshold, and for containers failing on a minimum length or a single offending element it reports the shortest such container with minimal elements.',
 ['inputs','programs'],'all starting values, all thresholds and monotone failure conditions, all integer and container types',
 'Tests try sampled thresholds for integers; termination and optimality quantify over all values and predicates.',
 [I+'shrink/Shrink.hpp',I+'shrinkable/Create.hpp',I+'gen/Container.hpp','src/detail/Testing.cpp'],
 [('halving toward the target',I+'shrink/Shrink.hpp TowardsSeq'),('chunk removal',I+'shrink/Shrink.hpp RemoveChunksSeq')],
 ['shrink sequences','reported counterexamples'])
p('C13','The random engine is a reproducible splittable generator',
 'The number stream and the split halves of the random engine are a fixed function of its key and split path, the same in every build and for every copy, and using one half or copy never affects another. Distinct keys or split paths give distinct, statistically unrelated streams, equality and ordering agree with the streams, and encoding and decoding the engine at any position restores an equal engine that continues identically.',
 ['inputs','histories'],'all keys, split paths of any length, positions in the stream, interleavings of copies',
 'Tests sample a few known-answer numbers and shallow splits.',
 ['src/Random.cpp',I+'Random.h',I+'Random.hpp'],[('Threefish-256 based key/path/counter construction','src/Random.cpp mash, append'),('lazy block recomputation on decode',I+'Random.hpp deserialize')],
 ['numbers returned by next()','encoded bytes'])
p('C14','Generated values cover their domain with the documented distribution',
 'At full size every value of a range, every bit pattern of an integral type, every element of a selection, every branch of a choice and every length of a container up to the size is generated with positive probability, uniformly for ranges, booleans, elements, integers and choices, and in proportion to the weights where weights are given. Elements of one container, components of one tuple, a choice and its value, successive picks and successive test cases are independent, and ASCII characters are more common than others in text. With smaller size integers use proportionally fewer bits, ranges are proportionally narrower and containers proportionally shorter.',
 ['inputs'],'all domains, weights and sizes, over all random states',
 'Tests only look for existence of some values; bias and unreachable values do not show in single samples.',
 [I+'detail/BitStream.hpp','src/gen/detail/ScaleInteger.cpp',I+'gen/Numeric.hpp','src/gen/Numeric.cpp',I+'gen/Select.hpp',I+'gen/Container.hpp'],
 [('bit stream',I+'detail/BitStream.hpp'),('size scaling','src/gen/detail/ScaleInteger.cpp')],['frequency of generated values'])
p('C15','Dependent generation replays consistently while shrinking',
 'In gen::exec and property bodies every shrink re-runs the code with the earlier picked values unchanged, exactly one picked value shrunk, and values picked later regenerated deterministically; picks whose arguments the code does not reach any more are dropped. Every value of the resulting generator is what the code returns for the picks it reports, nested exec included, and the counterexample lists precisely the arguments and picks of that run in order with their values.',
 ['programs','inputs'],'all generation programs with data-dependent control flow, all shrink paths',
 'Tests use a couple of straight-line programs; replay has to be right for every dependent control flow.',
 [I+'gen/detail/ExecRaw.hpp','src/gen/detail/ExecHandler.cpp','src/gen/detail/Recipe.cpp',I+'gen/Exec.hpp','src/detail/Property.cpp'],
 [('recipe replay','src/gen/detail/ExecHandler.cpp'),('shrinking of recipes',I+'gen/detail/ExecRaw.hpp')],
 ['values picked in each execution','Example of each case'])
p('C16','Generated command sequences are valid for the model, in every shrink',
 'Every command sequence generated for stateful testing, and every sequence reachable from it by shrinking, satisfies each command\'s preconditions when applied in order from the initial model state, has at least one and at most size plus one commands when generated, never gets longer by shrinking, and consists only of commands the generation function gave for the state at that point, or shrinks of these. Each shrink removes a range of commands or shrinks one command, keeps every other command that is still allowed where it now stands, and regenerates for that state or drops those that are not. Commands that cannot be generated or whose preconditions fail are retried or dropped, never emitted, and shrinking can remove any commands whose absence keeps the rest valid.',
 ['histories','inputs','programs'],'all models, command sets with arbitrary preconditions and failing constructors, sizes, random states, shrink paths',
 'Tests use two tiny models; validity must hold for every command history and every shrink of it.',
 [I+'state/gen/Commands.hpp',I+'state/gen/ExecCommands.hpp',I+'state/Commands.hpp'],
 [('sequence generation and repair after shrinking',I+'state/gen/Commands.hpp')],['commands and model states along each sequence'])
p('C17','Stateful execution follows the model step by step',
 'Running a valid command sequence checks each command\'s precondition and then runs it against the system with the model state before that command, and then advances the model, each exactly once and in order from a fresh initial state; it stops at the first failure and discards if a precondition does not hold. Preconditions that fail or throw instead of discarding make the check fail with that failure. A check of a system that deviates from its model reports a failing sequence in which the last command run is the one whose run failed, and a conforming system always passes.',
 ['histories','programs'],'all command sequences, models, systems and points of failure',
 'Tests run fixed sequences of integers commands; the protocol has to hold for every history and failure point.',
 [I+'state/Commands.hpp',I+'state/Command.hpp',I+'state/State.hpp'],
 [('runAll/applyAll/isValidSequence',I+'state/Commands.hpp, '+I+'state/Command.hpp')],['calls of preconditions, run and apply with their states'])
p('C18','Configuration strings round-trip and bad ones are rejected',
 'Any configuration written as a full or minimal configuration string and read back gives an equal configuration (the minimal one always keeps the seed), with any spacing, quoting or order of its key=value pairs. A value that is not a valid number, flag or reproduce string, out of range or negative where not allowed is rejected with a configuration error that leaves nothing half-applied, unspecified keys keep their defaults, and no input string crashes or hangs the parser.',
 ['inputs','configurations'],'all configurations and all strings, printable or not',
 'Tests round-trip sampled configurations and a dozen bad strings; arbitrary hostile strings are not reached.',
 ['src/detail/Configuration.cpp','src/detail/MapParser.cpp','src/detail/StringSerialization.cpp'],
 [('map parser','src/detail/MapParser.cpp'),('parameter validation','src/detail/Configuration.cpp loadParam')],['Configuration values','ConfigurationException'])
p('C19','Encoded data round-trips and malformed data is rejected safely',
 'Integers, compact integers, strings, pairs, maps, ranges, engines and reproduction data decode to equal values from their encoding, consuming exactly the bytes written, through base64 included. Truncated, corrupted or hostile bytes or text give a serialization or parse error or some valid value, and never read outside the input, loop, exhaust memory or cause undefined behaviour.',
 ['inputs'],'all values and all byte and character sequences',
 'Tests round-trip generated values and try a few truncations; hostile inputs are unbounded.',
 [I+'detail/Serialization.hpp','src/detail/Base64.cpp','src/detail/StringSerialization.cpp',I+'detail/Results.hpp',I+'Random.hpp'],
 [('bounds checks while decoding',I+'detail/Serialization.hpp'),('base64 validation','src/detail/Base64.cpp')],['decoded values, exceptions, AddressSanitizer, UndefinedBehaviorSanitizer'])
p('C20','Reports and tag distributions state what happened',
 'The printed report gives the true verdict, number of tests and shrinks, every counterexample item with its type or name and its value, and the failure description; the tag distribution counts exactly the passed test cases carrying each combination of tags in the order added, as shares of all passed cases, most frequent first. Verbose listeners print one mark per test case and shrink of the right kind, and reproduction hints list exactly the named properties that failed.',
 ['inputs','programs','histories'],'all tag usages, outcome sequences and counterexamples',
 'Tests compare a few messages; counting and formatting must be right for every run.',
 ['src/detail/Results.cpp','src/Classify.cpp',I+'Classify.h','src/detail/LogTestListener.cpp','src/detail/ReproduceListener.cpp',I+'Show.hpp','src/Show.cpp'],
 [('tags collected on success','src/detail/Testing.cpp'),('distribution printing','src/detail/Results.cpp')],['printed text','SuccessResult.distribution'])
p('C21','Value-holding types construct and destroy each object exactly once',
 'Optional, variant, type-erased, sequence, generator and shrinkable values own their contents like ordinary values: under any sequence of construction, copy, move, assignment (self-assignment and assignment from a part of itself included), reset, swap and access they hold the expected value, every constructed object is destroyed exactly once, and nothing leaks, also when a contained copy throws. An empty, moved-from or ended value can be copied, assigned and destroyed safely.',
 ['histories','fault_sequences'],'all operation sequences over the types and all points at which a contained operation throws',
 'Tests exercise single operations; ownership errors need sequences and faults, and are silent without instrumentation.',
 [I+'Maybe.hpp',I+'detail/Variant.hpp',I+'detail/Any.hpp','src/detail/Any.cpp',I+'Seq.hpp',I+'Gen.hpp',I+'Shrinkable.hpp'],
 [('manual storage management',I+'Maybe.hpp, '+I+'detail/Variant.hpp'),('reference counts',I+'Gen.hpp, '+I+'Shrinkable.hpp')],
 ['live-object registry','AddressSanitizer'])
p('C22','Generators and shrinkables can be shared between threads',
 'Copying, destroying, evaluating and traversing the same pure generators, shrinkables and their values from several threads at once is free of data races and of lost or repeated destruction, and gives each thread the same results as single-threaded use.',
 ['schedules'],'all interleavings of copying, evaluating, traversing and dropping shared objects',
 'No test uses threads at all.',
 [I+'Gen.hpp',I+'Shrinkable.hpp',I+'gen/Arbitrary.hpp'],
 [('atomic reference counts',I+'Gen.hpp GenImpl, '+I+'Shrinkable.hpp ShrinkableImpl')],['ThreadSanitizer','per-thread tree digests','live-object registry'])
p('C23','Test framework integrations report the property\'s verdict',
 'With the GoogleTest, Catch2, doctest and Boost.Test integrations a property that passes is reported as a passing test and one that fails, gives up or errors is reported as a failing test whose message contains the counterexample. GoogleMock expectations and non-fatal GoogleTest failures reported inside a property fail exactly the test case in which they occur, so that it shrinks to the same counterexample as an ordinary failure, and fixtures are constructed, set up, torn down and destroyed once for every case, whatever its outcome. A reproduction string in the configuration replays exactly the property it names.',
 ['programs','inputs'],'all outcome sequences of properties run through each integration',
 'The repository tests only gmock on a few cases, and no other integration.',
 ['extras/gtest/include/rapidcheck/gtest.h','extras/gmock/include/rapidcheck/gmock.h','extras/catch/include/rapidcheck/catch.h','extras/doctest/include/rapidcheck/doctest.h','extras/boost_test/include/rapidcheck/boost_test.h',I+'detail/ExecFixture.h'],
 [('result translation','extras/*')],['framework reports and exit status'])
p('C24','Generator combinators obey their shrink-tree model',
 'map, mapcat, join, pair, tuple, cast, build, construct, set, scale, resize, withSize, lazy, noShrink, apply and the shrinkable combinators yield for each random state and size exactly the shrink tree their definition denotes over the trees of their operands: mapping acts on every node, dependent combinators try the outer shrinks before the inner and regenerate the inner from the same random state, operands of one evaluation are given different random states, sizes reach operands as scaled, and noShrink has no shrinks. Functor and monad identities therefore hold on whole trees.',
 ['programs','inputs'],'all expressions over the combinators, all operand generators, random states and sizes',
 'Tests check a combinator at a time on root values or first-level shrinks.',
 [I+'gen/Transform.hpp',I+'gen/Tuple.hpp',I+'gen/Build.hpp',I+'shrinkable/Transform.hpp',I+'shrinkable/Create.hpp'],
 [('shrinkable transforms',I+'shrinkable/Transform.hpp')],['complete or bounded shrink trees'])
p('C25','Generation and property contexts are strictly scoped',
 'Picking a value always acts on the innermost enclosing generation or property body, and logging, tagging and reporting results on the innermost property, from which generators and nested checks running inside it are shielded; outside any context picking reports an error and the others have no effect on any test case; leaving a context in any way, by return, by any exception or by discarding, restores the enclosing one exactly, with nested checks and nested generators at any depth and lazily evaluated shrinks run later included.',
 ['histories','programs'],'all nestings of checks, exec generators and parameter scopes, with exceptions at any point',
 'Tests check single-level use; restoration after unwinding through several levels is not reached.',
 [I+'detail/ImplicitParam.h',I+'detail/ImplicitParam.hpp','src/detail/ImplicitParam.cpp','src/gen/detail/GenerationHandler.cpp','src/detail/PropertyContext.cpp'],
 [('implicit parameter stack with scopes',I+'detail/ImplicitParam.h')],['results, logs, tags and recipes per context'])
p('C26','In-contract use has no memory error or undefined behaviour',
 'No use of the public API within its documented contract, including extreme bounds, sizes, counts, seeds, weights, empty containers, throwing user callbacks and deep shrinking, causes a memory error, an undefined operation, a leak, an abort or a non-terminating call in the library. Invalid arguments that the documentation says are rejected raise the documented exception.',
 ['inputs','programs','fault_sequences'],'all public generators, combinators and checks with extreme arguments and callbacks throwing at any call',
 'Tests run without sanitizers and mostly with moderate arguments.',
 [I,'src/'],[('argument validation',I+'gen/*.hpp'),('noexcept evaluation boundaries',I+'Gen.hpp, '+I+'Shrinkable.hpp, '+I+'Seq.hpp')],
 ['AddressSanitizer','UndefinedBehaviorSanitizer','live-object registry'])
p('C27','The final run of the minimal failing case is announced and reported',
 'For every check that ends in failure, shrinking disabled or not, stateful, nested in another check or reproducing a failure, rc::beforeMinimalTestCase is called exactly once, after all other test cases and shrinks, and is followed by exactly one execution of the property, that of the minimal failing case; the reported counterexample, description and log are those of that execution. Checks that succeed, give up or cannot find the case to reproduce make no such call.',
 ['inputs','programs','configurations'],'all failing and non-failing properties, parameters, shrink paths and nestings of checks',
 'No test observes the call or the order of the executions around it.',
 ['src/detail/Testing.cpp','src/BeforeMinimalTestCase.cpp','doc/debugging.md'],
 [('announcement before the last evaluation of the minimal case','src/detail/Testing.cpp doTestProperty, reproduceProperty')],['calls of rc::beforeMinimalTestCase','executions of the property body','listener events','TestResult'])
p('C28','The configuration without run-time type information keeps the guarantees',
 'Built without run-time type information (RC_ENABLE_RTTI=OFF), generation, shrinking, dependent replay, counterexamples, reproduction and stateful execution behave as they do with it: values kept for a counterexample are those the failing run got and are shown by their own display, types with a display of their own and the standard types composed of them are named, and only types and commands without one are shown as unknown.',
 ['inputs','programs','configurations'],'all properties, generated types and command sequences in a build with RC_DONT_USE_RTTI and without typeid',
 'The tests are built with run-time type information only and leave this configuration out.',
 [I+'detail/ShowType.hpp',I+'detail/Any.hpp',I+'state/Command.hpp','CMakeLists.txt'],
 [('values stored without their dynamic type',I+'detail/Any.hpp'),('type and command names',I+'detail/ShowType.hpp, '+I+'state/Command.hpp')],['TestResult','values of picks','calls of commands','typeToString'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P), max(len(x['title']) for x in P))
