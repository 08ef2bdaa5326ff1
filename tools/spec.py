"""Source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = 'ndg/xacml/core/'
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, state=(),
      observe=(), hook=None):
    assert len(title) <= 80, title
    PROPS.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'state': [{'name': a, 'meaning': b, 'where': c}
                      for a, b, c in state],
            'mechanism': [{'name': a, 'where': b} for a, b in mech],
            'observe_at': list(observe), 'hook_needed': hook}})


P('C01', 'Concurrent decisions and loads equal the same calls run alone',
  '''Threads may evaluate requests through one shared PDP, share request
  objects and attribute sources, load further policies, and make the first use
  of any function, data type, combining algorithm or reader, all at the same
  time. Every decision and every loaded policy is the one the same call gives
  when it runs alone, and no call fails or hangs because another one is in
  progress.''',
  ['schedules', 'inputs'],
  '''every interleaving of any number of evaluating and loading threads, in a
  process that has or has not used the parts involved before''',
  '''The tests are single-threaded; an interleaving inside lazy function
  loading, the shared regular expression cache or policy evaluation is never
  produced.''',
  [CORE + 'functions/__init__.py', CORE + 'functions/v1/regexp_match.py',
   CORE + 'policybase.py', CORE + 'attributedesignator.py',
   CORE + 'context/pdp.py', CORE + 'attributevalue.py'],
  [('per-call evaluation state, no state stored on shared policy objects',
    CORE + 'policybase.py PolicyBase.evaluate, core/rule.py Rule.evaluate'),
   ('function map filled at import, entries loaded on first use',
    CORE + 'functions/__init__.py FunctionMap')],
  [('functionMap', 'process-wide map from function id to class',
    CORE + 'functions/__init__.py'),
   ('compiled_regexes', 'process-wide cache of compiled expressions',
    CORE + 'functions/v1/regexp_match.py')],
  ['PDP.evaluate result', 'PDP.fromPolicySource result'])

P('C02', 'Replacing a PDP\'s policy is atomic for running evaluations',
  '''A PDP may have its policy replaced while evaluations are running in other
  threads or while an attribute source is being queried. Every evaluation
  returns the decision of exactly one of the policies installed at some moment
  between its start and its end, never a mixture of two. An evaluation that
  starts after a replacement returned never uses an older policy.''',
  ['schedules', 'histories'],
  '''every interleaving of evaluations and replacements, including a
  replacement made from inside an evaluation, with any attribute-source
  delay''',
  '''Tests never replace a policy while an evaluation is in progress.''',
  [CORE + 'context/pdp.py', CORE + 'policybase.py'],
  [('evaluation reads the installed policy once',
    CORE + 'context/pdp.py PDP.evaluate'),
   ('replacement is one assignment of a completely read policy',
    CORE + 'context/pdp.py PDP.setPolicyFromSource')],
  [('PDP policy', 'policy in force', CORE + 'context/pdp.py')],
  ['PDP.evaluate result'])

P('C03', 'A failed policy load leaves the PDP exactly as it was',
  '''If loading a policy into a PDP raises because the source is unreadable,
  damaged, invalid or refers to something that cannot be found, the PDP still
  answers every request with the policy it had before, also for evaluations
  running during the attempt; if it returns, the PDP answers with the whole
  new policy. An exception raised at an arbitrary point of the load leaves it
  with the old or the new policy, whole. Creating a PDP from a source either
  raises or returns one that decides by that source's policy, and assigning
  something that is not a policy raises TypeError and changes nothing.''',
  ['crash_points', 'fault_sequences', 'histories'],
  '''every sequence of loads, evaluations and assignments; every failure:
  malformed, truncated or unreadable source, unresolvable reference, unknown
  function or type, and an exception raised at any point of the load''',
  '''Tests load only good files from disk; a load that fails part way through
  on a PDP already in service is not exercised.''',
  [CORE + 'context/pdp.py', 'ndg/xacml/parsers/etree/policyreader.py',
   'ndg/xacml/parsers/etree/policysetreader.py',
   'ndg/xacml/finder/localpolicyfinder.py'],
  [('policy is read completely before it is installed',
    CORE + 'context/pdp.py PDP.setPolicyFromSource'),
   ('type check of the policy property', CORE + 'context/pdp.py PDP.policy')],
  [('PDP policy', 'policy in force', CORE + 'context/pdp.py')],
  ['PDP.setPolicyFromSource', 'PDP.fromPolicySource', 'PDP.policy',
   'PDP.evaluate result'])

P('C04', 'A damaged policy document is never loaded as a different policy',
  '''However the bytes of a policy document reach the library (read sizes,
  short reads, stalls), an undamaged document gives a PDP with the same
  decisions. A document that was truncated, lost or repeated a block, had
  bytes flipped or zeroed, mixes two versions, or whose reading failed, makes
  the load raise unless the delivered bytes still are a complete valid policy
  document, in which case the decisions are those of the policy these bytes
  spell out. Missing mandatory attributes and unknown elements inside the
  policy make the load raise; nothing is skipped silently.''',
  ['fault_sequences', 'inputs'],
  '''every policy document the library supports, every chunking of its
  delivery, every damage of the listed kinds at every offset''',
  '''Tests read intact files only; the space of damages and read sizes is not
  sampled at all.''',
  ['ndg/xacml/parsers/etree/policyreader.py',
   'ndg/xacml/parsers/etree/policysetreader.py',
   'ndg/xacml/parsers/etree/rulereader.py',
   'ndg/xacml/parsers/etree/targetreader.py',
   'ndg/xacml/parsers/etree/reader.py',
   'ndg/xacml/parsers/etree/conditionreader.py',
   'ndg/xacml/parsers/etree/applyreader.py',
   'ndg/xacml/parsers/etree/matchreader.py',
   'ndg/xacml/parsers/etree/attributedesignatorreader.py',
   'ndg/xacml/parsers/etree/attributeselectorreader.py',
   'ndg/xacml/parsers/etree/attributevaluereader.py'],
  [('every reader checks element names and mandatory attributes',
    'ndg/xacml/parsers/etree/*reader.py'),
   ('whole document parsed before any part is used',
    'ndg/xacml/parsers/etree/reader.py ETreeAbstractReader._parse')],
  (), ['PDP.fromPolicySource', 'PDP.evaluate result'])

P('C05', 'After a transient fault the library works as if it never happened',
  '''When a load or an evaluation was disturbed by a temporary fault (a module
  that could not be imported, a stream or network error, an attribute source
  that failed, an allocation failure or other exception raised at any point),
  then repeating the same call after the fault is gone gives the result it has
  in a process where the fault never occurred. This holds for the same PDP,
  for new PDPs and for the other operations of the process.''',
  ['fault_sequences', 'crash_points', 'histories'],
  '''every operation of a load/evaluate history, every fault kind and point,
  in a process that had or had not loaded the parts involved before''',
  '''Tests never make a step fail and then retry; the process-wide caches are
  only ever filled by successful first uses.''',
  [CORE + 'functions/__init__.py', CORE + 'functions/v1/regexp_match.py',
   'ndg/xacml/utils/factory.py', CORE + 'attributevalue.py',
   'ndg/xacml/finder/urlpolicyfinder.py', CORE + 'context/pdp.py'],
  [('caches are filled only with complete entries',
    CORE + 'functions/__init__.py FunctionMap, '
    'core/functions/v1/regexp_match.py')],
  [('functionMap', 'process-wide map from function id to class',
    CORE + 'functions/__init__.py'),
   ('compiled_regexes', 'process-wide cache of compiled expressions',
    CORE + 'functions/v1/regexp_match.py')],
  ['result of the repeated call'])

P('C06', 'A failing evaluation step fails safe',
  '''Whatever an attribute source does (raise any Exception, answer with
  something that is not a collection of values, fail while it is iterated),
  evaluation returns a response with exactly one result, and its decision is
  one the policy has in XACML 2.0 when the failing expression counts as
  Indeterminate. An exception raised
  inside the library at any point of an evaluation either becomes such an
  Indeterminate part or reaches the caller as that exception; it never becomes
  a wrong decision.''',
  ['fault_sequences', 'crash_points', 'inputs'],
  '''every policy and request of the supported subset, every attribute-source
  failure, a single exception at every point of the evaluation''',
  '''Tests cover two hand-written Indeterminate cases; failure positions and
  kinds are unbounded.''',
  [CORE + 'policybase.py', CORE + 'rule.py', CORE + 'match.py',
   CORE + 'target.py', CORE + 'attributedesignator.py',
   CORE + 'context/result.py', CORE + 'context/response.py',
   CORE + 'context/exceptions.py'],
  [('exceptions of a rule or policy become Indeterminate',
    CORE + 'rule.py Rule.evaluate, core/policybase.py PolicyBase.evaluate'),
   ('response of a context error returned',
    CORE + 'policybase.py PolicyBase.evaluateResponse')],
  (), ['PDP.evaluate result'])

P('C07', 'Rule combining algorithms hold when rules fail',
  '''A policy's decision is the one its rule combining algorithm
  (deny-overrides, permit-overrides, first-applicable) gives in XACML 2.0 for
  the decisions of its rules in document order, where a rule whose target or
  condition could not be evaluated is Indeterminate with its own effect. A
  policy whose target does not match is NotApplicable and one whose target
  cannot be evaluated is Indeterminate. This holds for every pattern of
  failing and succeeding attribute lookups.''',
  ['fault_sequences', 'inputs', 'crash_points'],
  '''every policy with up to five rules, every pattern of failing lookups,
  a single exception at any point''',
  '''Tests have a handful of fixed rule sets, nearly all without failures.''',
  [CORE + 'rule_combining_alg.py', CORE + 'policy.py', CORE + 'policybase.py',
   CORE + 'rule.py', CORE + 'condition.py', CORE + 'apply.py'],
  [('combining algorithms', CORE + 'rule_combining_alg.py'),
   ('rule decisions', CORE + 'rule.py Rule.evaluate')],
  (), ['PDP.evaluate result'])

P('C08', 'Policy combining algorithms hold when nested policies fail',
  '''A policy set's decision is the one its policy combining algorithm
  (deny-overrides, permit-overrides, first-applicable) gives in XACML 2.0 for
  the decisions of its children (policies, nested sets, references) in
  document order: under deny-overrides an Indeterminate child means Deny, under
  the others it is Indeterminate as the standard defines. A set whose target
  does not match is NotApplicable and one whose target cannot be evaluated is
  Indeterminate, whatever its children say.''',
  ['fault_sequences', 'inputs', 'crash_points'],
  '''every tree of policy sets to depth three, every pattern of failing
  lookups in it, a single exception at any point''',
  '''Tests evaluate a few nested sets without failures.''',
  [CORE + 'policy_combining_alg.py', CORE + 'policyset.py',
   CORE + 'policybase.py'],
  [('combining algorithms', CORE + 'policy_combining_alg.py'),
   ('child decisions', CORE + 'policybase.py PolicyBase.evaluate')],
  (), ['PDP.evaluate result'])

P('C09', 'An attribute designator yields exactly the matching values',
  '''The bag of an attribute designator holds exactly the values of the
  request's attributes with the designator's id and data type (and issuer,
  when it names one) in its part of the request, plus, for subjects, the
  values the attribute source answers that are not already there. The source
  is asked with the request and the designator's id, type and issuer, its
  answer may be any iterable, None or empty, and each evaluation asks again.
  An empty bag is an error exactly when the designator says the attribute must
  be present.''',
  ['inputs', 'fault_sequences', 'schedules'],
  '''every request, designator and attribute source answer (shape, delay,
  duplicates, failure), alone and concurrently''',
  '''Tests use one fixed attribute source answering a list.''',
  [CORE + 'attributedesignator.py', CORE + 'context/handler.py',
   CORE + 'attribute.py'],
  [('matching and merging',
    CORE + 'attributedesignator.py SubjectAttributeDesignator.evaluate and '
    'its siblings')],
  (), ['bag seen by a function of the policy',
       'AttributeDesignator.evaluate result', 'queries the source receives'])

P('C10', 'Decisions depend on the policy and the request only',
  '''Evaluating does not change the policy, the request or any answer of an
  attribute source, so the same request gets the same decision every time, in
  any order and after any other evaluations, failures or loads. When the
  caller changes the request or the attribute source changes its answers, the
  next evaluation uses the new content.''',
  ['histories', 'fault_sequences'],
  '''every history of evaluations, failed evaluations, request changes and
  answer changes on one PDP''',
  '''Tests evaluate each request once on a fresh PDP.''',
  [CORE + 'attributedesignator.py', CORE + 'policybase.py',
   CORE + 'functions/v1/regexp_match.py',
   'ndg/xacml/utils/__init__.py'],
  [('bags are built per evaluation', CORE + 'attributedesignator.py')],
  (), ['PDP.evaluate result', 'request content after evaluation'])

P('C11', 'Each evaluation returns a response of its own',
  '''Every evaluation returns a new response with a new result: whatever a
  caller does to a response it received, and whatever evaluations follow or
  run at the same time, no other response ever changes. The predefined
  decision and effect constants cannot be altered.''',
  ['histories', 'schedules'],
  '''every history of evaluations interleaved with modifications of the
  responses received, sequential and concurrent''',
  '''Tests look at one response right after its evaluation.''',
  [CORE + 'context/response.py', CORE + 'context/result.py',
   CORE + 'policybase.py', CORE + 'rule.py'],
  [('response built per evaluation',
    CORE + 'policybase.py PolicyBase.evaluateResponse'),
   ('read-only constants', CORE + 'context/result.py, core/rule.py')],
  (), ['Response objects held by callers'])

P('C12', 'A policy reference means exactly the document it names',
  '''A policy or policy set reference is decided as the policy with exactly
  that identifier: one already read, or else the document fetched from that
  address (relative to the finder's base path), which must declare that
  identifier and kind; a finder of the application may supply it instead.
  Children and references keep their order. When the document is missing,
  unreachable, timed out, damaged or declares something else, or the finder
  raises or answers with no policy, the load raises: no reference is dropped,
  replaced or resolved to another document.''',
  ['fault_sequences', 'inputs', 'configurations'],
  '''every graph of references over several documents, every network fault
  on any fetch, relative and absolute addresses''',
  '''Tests resolve two references against intact local files.''',
  ['ndg/xacml/finder/urlpolicyfinder.py',
   'ndg/xacml/finder/localpolicyfinder.py',
   'ndg/xacml/finder/defaultfinder.py', 'ndg/xacml/utils/urlfetcher.py',
   'ndg/xacml/parsers/etree/policysetreader.py', CORE + 'context/pdp.py'],
  [('lookup and fetch', 'ndg/xacml/finder/urlpolicyfinder.py '
    'UrlPolicyFinder'),
   ('children in document order',
    'ndg/xacml/parsers/etree/policysetreader.py')],
  [('finder maps', 'policies read so far by id',
    'ndg/xacml/finder/localpolicyfinder.py')],
  ['PDP.fromPolicySource', 'PDP.evaluate result', 'addresses fetched'])

P('C13', 'Two policies with one identifier are never both accepted',
  '''Within one load, a second policy, or a second policy set, with an
  identifier already read makes the load raise, at whatever depth and in
  whichever document it appears, and so does a second rule with the same
  identifier inside one policy. Equal identifiers of a policy and a policy set,
  or of rules of different policies, are allowed and do not interact, and
  referencing one policy several times is allowed.''',
  ['inputs', 'histories', 'fault_sequences'],
  '''every set of documents and reference graph, with a duplicate at any
  position, in any order of fetching and with retried fetches''',
  '''Tests do not combine duplicates with references.''',
  ['ndg/xacml/finder/localpolicyfinder.py',
   'ndg/xacml/parsers/etree/policyreader.py',
   'ndg/xacml/parsers/etree/policysetreader.py'],
  [('identifiers registered while reading',
    'ndg/xacml/finder/localpolicyfinder.py addPolicyReference, '
    'addPolicySetReference'),
   ('rule identifiers checked',
    'ndg/xacml/parsers/etree/policyreader.py')],
  (), ['PDP.fromPolicySource'])

P('C14', 'Requests and responses survive XML writing and reading',
  '''Writing a request to XML, pretty printing it or not, and reading it back
  gives a request with the same subjects (and categories), resources, resource
  content, action, environment, attributes, issuers and values of the text-like
  data types, and the same decisions, for any content including markup
  characters, empty values and non-ASCII text; pretty printing may trim white
  space at the ends of a text. Likewise a response keeps its decisions and
  resource ids. Reading gives the content the document spells out. Writing
  changes neither the object, the document it was read from, nor XML written
  earlier. This holds for both XML libraries and whatever other threads
  write, read, load or evaluate at the same time.''',
  ['schedules', 'inputs', 'configurations'],
  '''every request and response content of the text-like types, every
  interleaving of concurrent conversions, both XML backends''',
  '''Tests convert one fixed request in one thread.''',
  ['ndg/xacml/parsers/etree/context.py', 'ndg/xacml/parsers/etree/__init__.py',
   'ndg/xacml/utils/etree.py'],
  [('toXML/fromXML pairs', 'ndg/xacml/parsers/etree/context.py'),
   ('per-call namespace bookkeeping',
    'ndg/xacml/utils/etree.py prettyPrint')],
  (), ['RequestElementTree/ResponseElementTree toXML, fromXML', 'prettyPrint'])

P('C15', 'Custom functions and types are used exactly as registered',
  '''After a custom function, data type, data type reader or element reader
  was registered, every policy loaded from then on that needs it uses exactly
  that one (of data types registered without overwriting: the first), policies
  loaded before keep what they were loaded with, standard functions and types
  stay as they were, and registering over a standard function is refused. A
  registration or use that failed (a factory that raises, an unimportable
  path) changes nothing and can be repeated. Using registered extensions from
  several threads at once gives the results of using them alone, and other
  threads keep working while something is registered.''',
  ['schedules', 'fault_sequences', 'histories'],
  '''every order and interleaving of registrations, loads and evaluations,
  factories that fail any number of times''',
  '''Tests register once in one thread and never fail.''',
  [CORE + 'functions/__init__.py', CORE + 'attributevalue.py',
   'ndg/xacml/parsers/etree/factory.py',
   'ndg/xacml/parsers/etree/attributevaluereader.py',
   'ndg/xacml/utils/factory.py'],
  [('registration', CORE + 'functions/__init__.py '
    'FunctionMap.load_custom_function'),
   ('type registration',
    CORE + 'attributevalue.py AttributeValueClassFactory.addClass')],
  (), ['PDP.evaluate result', 'exceptions of the registration calls'])

P('C16', 'The library leaves process-wide state as it found it',
  '''Loading, evaluating, converting to XML, and failing in any of these,
  leaves the process as it was: module search path, namespace registry of the
  XML library, log configuration, environment, working directory, installed
  URL opener, time-outs, recursion limit, garbage collection, signal handlers,
  warning filters and random state. Every document the library opened itself
  is closed again, also when loading failed; one the caller opened is not
  closed for him by a failure.''',
  ['fault_sequences', 'crash_points', 'histories'],
  '''every history of operations with faults at any point; the namespaces the
  library registers for its own prefixes are excepted''',
  '''No test compares process state before and after, least of all after a
  failure.''',
  ['ndg/xacml/utils/factory.py', 'ndg/xacml/utils/etree.py',
   'ndg/xacml/parsers/etree/__init__.py',
   'ndg/xacml/parsers/etree/reader.py',
   'ndg/xacml/finder/urlpolicyfinder.py', 'ndg/xacml/utils/urlfetcher.py'],
  [('temporary module path entry removed', 'ndg/xacml/utils/factory.py'),
   ('fetched documents closed', 'ndg/xacml/finder/urlpolicyfinder.py')],
  (), ['process state', 'closed state of streams'])

P('C17', 'Cancelling an operation propagates and damages nothing',
  '''A cancellation (KeyboardInterrupt, SystemExit or any other exception that
  is not an Exception) that arrives at any point of a load or an evaluation,
  from outside or out of an attribute source, reaches the caller and is never
  turned into a decision. Every later operation, and every operation of other
  threads, gives the result it has when nothing was cancelled.''',
  ['crash_points', 'schedules', 'histories'],
  '''a cancellation at every point of every operation of a history, also
  while other threads work''',
  '''Tests never cancel anything.''',
  [CORE + 'policybase.py', CORE + 'rule.py', CORE + 'context/pdp.py',
   CORE + 'functions/__init__.py', CORE + 'functions/v1/regexp_match.py',
   'ndg/xacml/finder/urlpolicyfinder.py'],
  [('only Exception is turned into Indeterminate',
    CORE + 'rule.py Rule.evaluate, core/policybase.py PolicyBase.evaluate')],
  (), ['exception reaching the caller', 'results of later operations'])

P('C18', 'Every load and evaluation ends after bounded work',
  '''Loading ends for every graph of references, including circular ones,
  which raise an error: no document is fetched more often than it is referred
  to and each is read at most once for each kind of reference (policy or
  policy set) to it. Evaluation ends after a number of
  attribute-source queries bounded by the number of attribute references of
  the policy times the subjects of the request. No thread ever waits for
  something that never comes.''',
  ['inputs', 'schedules', 'fault_sequences'],
  '''every reference graph with and without cycles, every policy, any network
  or attribute source delay or failure, any number of threads''',
  '''Tests have no circular references and do not count queries.''',
  ['ndg/xacml/finder/urlpolicyfinder.py', CORE + 'attributedesignator.py',
   CORE + 'match.py', CORE + 'context/pdp.py'],
  [('documents being read are remembered',
    'ndg/xacml/finder/urlpolicyfinder.py')],
  (), ['number of fetches and queries', 'scheduler: progress'])

P('C19', 'PDPs of one process are independent',
  '''Any number of PDPs may exist in a process, over policies with equal
  policy, set and rule identifiers, attribute ids and addresses. Creating,
  loading, failing to load, evaluating or dropping one never changes a decision
  or a later load of another, with default or explicit finders, sequentially
  or at the same time.''',
  ['histories', 'schedules', 'fault_sequences'],
  '''every interleaving of operations on several PDPs with colliding
  identifiers, with failing loads in between''',
  '''Tests work with one PDP at a time.''',
  [CORE + 'context/pdp.py', 'ndg/xacml/finder/defaultfinder.py',
   'ndg/xacml/finder/localpolicyfinder.py',
   'ndg/xacml/finder/urlpolicyfinder.py', CORE + 'policybase.py',
   'ndg/xacml/utils/__init__.py'],
  [('state kept per instance', CORE + 'policybase.py, '
    'finder/localpolicyfinder.py')],
  (), ['PDP.evaluate result', 'PDP.fromPolicySource'])

P('C20', 'Logging never influences a decision or a load',
  '''Whatever level the application sets on its loggers, and whatever happens
  while log messages are written (a handler whose stream fails, is full, slow
  or closed), every load and every evaluation gives the result it gives with
  logging switched off. Logging a request or policy queries no attribute
  source.''',
  ['configurations', 'fault_sequences', 'schedules'],
  '''every log level, every failure of the stream behind a standard handler,
  every policy, request and failure of an attribute source''',
  '''Tests run at one log level.''',
  [CORE + 'policybase.py', CORE + 'rule.py', CORE + 'match.py',
   CORE + 'apply.py', CORE + 'attributedesignator.py',
   CORE + 'functions/__init__.py', 'ndg/xacml/finder/urlpolicyfinder.py'],
  [('log calls take plain values', CORE + '*.py')],
  (), ['PDP.evaluate result', 'PDP.fromPolicySource'])

# pure functions of their input: nothing for a scheduler or fault to decide
PURE = 'a pure function of its arguments: no schedule, clock, I/O or fault ' \
    'takes part, so simulation would only be input generation under another ' \
    'name'
P('C21', 'Standard functions compute what the XACML standard defines',
  '''For all arguments, each implemented standard function (equality,
  regular expression match, bag, one-and-only, member, concatenation, rounding
  and logical functions) returns the value the XACML 2.0 standard defines, and
  raises for arguments of a wrong type or number.''',
  ['inputs'], 'every argument tuple of every implemented function',
  'Tests sample a few arguments per function.',
  [CORE + 'functions/v1/equal.py', CORE + 'functions/v1/regexp_match.py',
   CORE + 'functions/v1/bag.py', CORE + 'functions/v1/at_least_one_member_of.py'],
  [('function classes', CORE + 'functions')], (), ['evaluate result'])
NA.append(('C21', PURE + '; what the simulated policies call of them is '
           'checked against the model as part of C07-C09'))
P('C22', 'Typed collections accept exactly members of their type',
  '''Typed lists, unique lists, vetted dictionaries and dictionaries of fixed
  key names never contain an element that violates their type, uniqueness,
  filter or key rule, whatever is appended, inserted, assigned or extended from
  whatever iterable, also when this iterable, a filter or a comparison fails or
  changes the collection, and (typed lists and vetted dictionaries) from
  several threads. A refused or failed change of a list leaves it as it was.
  Otherwise they behave as list and dict.''',
  ['histories', 'fault_sequences', 'schedules'],
  '''every sequence of method calls, every iterable and every point at which
  it fails''',
  'Tests call a few methods once.',
  ['ndg/xacml/utils/__init__.py'],
  [('checks in the mutating methods', 'ndg/xacml/utils/__init__.py')], (),
  ['content after each call'])
P('C23', 'Pickled policy and context objects unpickle to equal ones',
  '''Pickling and unpickling a policy, request, response or any of their
  parts gives an object with the same content and behaviour.''',
  ['inputs'], 'every object graph of the public classes',
  'No test pickles anything.',
  [CORE + '__init__.py', CORE + 'policybase.py'],
  [('__getstate__/__setstate__', CORE + '__init__.py XacmlCoreBase')], (),
  ['unpickled object'])
NA.append(('C23', PURE + '; the library itself never stores or loads '
           'pickles, so there is no storage or crash point in it. (It does '
           'not hold today: policies and attribute values refuse to be '
           'pickled at all, see DESIGN.md.)'))

P('C24', 'An attribute selector yields exactly the values its path selects',
  '''The bag of an attribute selector holds one value of the selector's data
  type for each node its path selects below the request element (the text of an
  element up to its first child element, an attribute, a text node), as the
  selector object set in the request at that moment finds them or, if the
  application supplies its own, answers them: in any shape of iterable, empty,
  late. Every evaluation asks for exactly that path again, so that changes of
  the document and of the selector object take effect. A selector object that
  is missing or fails, a wrong path, a path that computes something else than
  nodes and an answer that is not text are errors; an empty bag is one exactly
  when the selector says that it must be present.''',
  ['inputs', 'fault_sequences', 'histories', 'schedules'],
  '''every document, path and answer of a selector object, failing or changing
  between evaluations, alone and concurrently''',
  '''Tests use one document and a few paths that select something.''',
  [CORE + 'attributeselector.py', 'ndg/xacml/utils/xpath_selector.py',
   CORE + 'match.py', 'ndg/xacml/parsers/etree/attributeselectorreader.py'],
  [('evaluation', CORE + 'attributeselector.py AttributeSelector.evaluate'),
   ('selection', 'ndg/xacml/utils/xpath_selector.py EtreeXPathSelector')],
  (), ['bag seen by a function of the policy',
       'AttributeSelector.evaluate result', 'what the selector is asked',
       'PDP.evaluate result'])

P('C25', 'Documents come by the route the environment names, complete or not '
  'at all',
  '''A document with an http, https or ftp address is asked for with one GET of
  exactly that address: through the proxy that the environment names for its
  scheme at that moment, or directly if there is none or no_proxy lists the
  host; every redirection is followed by the same rule, and none leads to a
  file. The certificate of an https server is verified. Only a complete answer
  of status 200 is a document: an error page, an answer that is no HTTP, cut
  short, reset or timed out and redirections in circles make the fetch or the
  load raise, whatever they contain. Nothing is asked for a second time or by
  another route instead. The connection of an answer is closed when the load
  ends, also when what it brought is refused.''',
  ['fault_sequences', 'histories', 'schedules', 'inputs'],
  '''every set of addresses, proxy settings, exceptions, servers, answers and
  failures, changing between loads, alone and concurrently''',
  '''Tests fetch nothing over a network.''',
  ['ndg/xacml/utils/urlfetcher.py', 'ndg/xacml/finder/urlpolicyfinder.py'],
  [('fetch', 'ndg/xacml/utils/urlfetcher.py open_url'),
   ('route', 'ndg/xacml/utils/urlfetcher.py _should_use_proxy'),
   ('finder', 'ndg/xacml/finder/urlpolicyfinder.py '
    'UrlPolicyFinder._findPolicyFromReference')],
  (), ['requests that reach simulated servers and proxies',
       'policy of the PDP', 'bytes fetched', 'connections left open'])

P('C26', 'A forked child decides like an idle process, whatever the other '
  'threads were at',
  '''A process may fork while its other threads evaluate, load policies, use
  functions for the first time, register custom functions or import objects
  from a directory: in the child, where only the forking thread goes on, every
  evaluation, load, registration and import ends and gives exactly what it
  gives when it is the only thing a process does, with the PDPs inherited as
  with new ones; no lock, no mark of work in progress and nothing half done
  left by the vanished threads is met. The parent goes on undisturbed. (What
  Python itself does not promise, a fork in the middle of another thread's
  import of a module, is excepted.)''',
  ['schedules', 'histories', 'crash_points'],
  '''every moment of a fork, every set of threads at work then, every
  continuation in the child''',
  '''Tests never fork, and use one thread.''',
  ['ndg/xacml/core/functions/__init__.py', 'ndg/xacml/utils/factory.py',
   'ndg/xacml/core/context/pdp.py', 'ndg/xacml/core/policy.py'],
  [('lock', 'ndg/xacml/utils/factory.py _renewSysPathLock'),
   ('map', 'ndg/xacml/core/functions/__init__.py FunctionMap.loadFunction'),
   ('evaluation', 'ndg/xacml/core/context/pdp.py PDP.evaluate')],
  (), ['decision of each operation of a child and of the parent',
       'locks held by threads that do not exist in the child',
       'children that do not end'])

P('C27', 'What is finished leaves nothing behind',
  '''An evaluation, a load, a replacement, an XML conversion, an import from a
  directory or a registration under a name used before, once it has returned,
  failed or been cancelled, keeps nothing alive except what its result is made
  of: however often they are repeated, with identifiers, addresses, values,
  patterns and selector paths never seen before, with faults or without, in one
  thread or several, neither memory nor the library's collections, open files,
  threads or loggers of the process grow with their number. (Distinct functions
  and types that were used or registered stay.)''',
  ['histories', 'fault_sequences', 'schedules'],
  '''every long history of operations and faults with ever new content''',
  '''Tests do each thing once or twice.''',
  ['ndg/xacml/core/policybase.py', 'ndg/xacml/core/match.py',
   'ndg/xacml/core/functions/v1/regexp_match.py',
   'ndg/xacml/finder/urlpolicyfinder.py', 'ndg/xacml/utils/xpath_selector.py'],
  [('patterns', 'ndg/xacml/core/functions/v1/regexp_match.py '
    'RegexpMatchBase.evaluate'),
   ('progress', 'ndg/xacml/finder/urlpolicyfinder.py '
    'UrlPolicyFinder._findPolicyFromReference'),
   ('load', 'ndg/xacml/core/policybase.py PolicyBase.fromSource')],
  (), ['memory blocks of the interpreter', 'elements of all containers',
       'open files', 'threads', 'modules'])

BUILT = {}          # id -> level note


def claim(*ids):
    for i in ids:
        BUILT[i] = NOTE


NOTE = ('Seeded search over simulated executions of the real code (every '
        'line of ndg/xacml, both XML backends, cold and warm start), judged '
        'by an independent model and by undisturbed solo runs in forked '
        'copies. Sampled, not exhaustive; preemption at source-line (in part '
        'of the runs bytecode) boundaries of the library; C code and the '
        'standard library run atomically. Trusted: the model dst/model.py, '
        'the scheduler, CPython tracing.')

exec(open(os.path.join(HERE, 'tools', 'built.txt')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in PROPS:
            fh.write(json.dumps(p) + '\n')
    na = dict(NA)
    for p in PROPS:
        if p['id'] not in BUILT and p['id'] not in na:
            na[p['id']] = 'check under construction, not claimed yet'
    man = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': [{
            'property': i,
            'quick_cmd': './check.sh %s' % i,
            'thorough_cmd': 'VERIF_TIER=thorough ./check.sh %s' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation with fault injection '
                         '(seeded scheduler and fault search, reference '
                         'model oracle)',
            'level': 'exploration', 'level_note': BUILT[i]}
            for i in sorted(BUILT)],
        'not_applicable': [{'property': k, 'reason': na[k]}
                           for k in sorted(na)],
        'notes': 'No hooks in /repo: every seam used (attribute source, '
                 'streams, URL opener, imports, log handlers, threading and '
                 'time) is an existing one or is replaced from outside. '
                 'Repairs in /repo are listed in KNOWN_FINDINGS.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
