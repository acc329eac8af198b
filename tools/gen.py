#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (a check is registered when its rule module exists)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, na=None, note=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, na=na,
                  note=note, technique=technique))


PR = 'pyswagger/primitives/'
SP = 'pyswagger/spec/'
SC = 'pyswagger/scanner/'
CL = 'pyswagger/contrib/client/'

prop('C01', 'Numbers are accepted exactly when they meet the declared bounds',
     'A value for an integer or number declaration is converted to that type and accepted when it meets the declared minimum, maximum '
     '(exclusive where so declared) and multipleOf, and raises ValidationError otherwise. This holds wherever a number can be declared: '
     'model properties, additional properties, array items, every kind of parameter, bodies, response headers, and schemas combined by allOf.',
     ['inputs', 'programs'], 'every number, every combination of bounds (also 0 and equal bounds) and every place of declaration',
     'the tests sample a handful of numbers against a handful of bounds; which side of each bound and which holder is exercised is accidental',
     [PR + '_int.py', PR + '_float.py', PR + 'comm.py', PR + '__init__.py'],
     [('validate_int / validate_float / min_max', PR), ('dispatch by type and format', PR + '__init__.py Primitive.produce')])

prop('C02', 'Strings are accepted exactly when they meet enum, length and email rules',
     'A value for a string declaration is turned into text and accepted, unchanged, when it is one of the enum members, its length lies '
     'within minLength and maxLength, and (format email) it is an email address; ValidationError is raised otherwise. This holds in every place '
     'that can declare a string.',
     ['inputs', 'programs'], 'every text, every limit (0 included), every enum, every place of declaration',
     'tests use a few literals; limits of 0, empty texts and the less common holders are not reached',
     [PR + '_str.py', PR + '__init__.py'], [('validate_str, validate_email_', PR + '_str.py')])

prop('C03', 'Arrays convert every element, obey limits and use their collectionFormat',
     'A value for an array declaration is converted element by element and in order (text is first split at the separator of its collectionFormat: '
     'csv, ssv, tsv or pipes), repeated elements are dropped exactly when uniqueItems is set, and ValidationError is raised exactly when the number of '
     'resulting elements is below minItems or above maxItems. As a parameter it is sent as the elements joined by that separator, or as one pair per '
     'element for multi; an unsupported collectionFormat raises SchemaError and the caller\'s list is not modified.',
     ['inputs', 'programs'], 'every list of 0..3 arbitrary elements and every text split into them, every limit, format and place of declaration',
     'tests fix one element list per format; empty elements, zero limits, nesting and most holders are not covered',
     [PR + '_array.py', SP + 'v2_0/objects.py'], [('Array.apply_with, Array.__str__, Array.to_url', PR + '_array.py'), ('Operation.__call__', SP + 'v2_0/objects.py')])

prop('C04', 'Models follow their declared properties',
     'An object value is produced with each declared property converted by its own schema, undeclared ones kept, converted or dropped as additionalProperties '
     'says, declared defaults filled in for absent properties, and the discriminator property set to the name of the definition. It raises ValueError when a required property '
     'is missing and an exception when a readOnly property, at any depth, is sent in a request (never in a response), and leaves the value passed by the caller as it was.',
     ['inputs', 'programs'], 'every property name, value and combination of the keywords over bounded nesting',
     'tests exercise a few fixed documents; combinations of required, default, readOnly, references and additional properties are not enumerated',
     [PR + '_model.py', PR + '__init__.py'], [('Model.apply_with, Model.cleanup', PR + '_model.py')])

prop('C05', 'allOf combines the constraints and properties of all its members',
     'A value produced for a schema with allOf obeys the schema itself and every member of allOf, directly or through references and nested allOf: properties, required lists and bounds of all '
     'of them apply, and each property is converted by the schema that declares it. After preparation the '
     'combined view of such a schema lists the properties of all members, own declarations first.',
     ['inputs', 'programs'], 'member lists of up to three schemas, inline, by reference and nested, with arbitrary values',
     'the tests have two or three fixed inheritance documents',
     [PR + '__init__.py', PR + '_model.py', SC + 'v2_0/aggt.py'], [('Primitive.produce allOf loop', PR + '__init__.py'), ('Aggregate', SC + 'v2_0/aggt.py')])

prop('C06', 'Each type and format converts and encodes as the specification says',
     'Every supported type/format pair produces its documented value from every documented input kind (byte and binary, date and date-time from timestamps, objects and ISO-8601 text, uuid from text, bytes and UUID objects, boolean, file), '
     'rejects other kinds, and encodes to its wire and JSON form: URL-safe base64 for byte, isoformat for dates, canonical text for uuid. An unknown format falls back to its type, an unknown type raises ValueError, and handlers '
     'registered by the user take precedence.',
     ['inputs', 'programs'], 'every type/format of the table and every kind of input value',
     'tests check one literal per format', [PR + '__init__.py', PR + '_byte.py', PR + '_time.py', PR + '_uuid.py', PR + '_bool.py', PR + '_file.py', PR + 'comm.py'],
     [('Primitive._map and get/register', PR + '__init__.py'), ('PrimJSONEncoder', PR + 'comm.py')])

prop('C07', 'Calling an operation places every argument where the document says',
     'Calling an operation with keyword arguments puts each given or defaulted parameter, converted, exactly once into the query, header, path, form, body or file part its declaration names and leaves the others out. '
     'It raises ValueError when a required parameter without default is missing or an argument is not declared, and returns a new request and response pair that shares nothing with other calls.',
     ['inputs', 'programs', 'histories'], 'every location, required/default combination, unknown names, falsy values and repeated calls',
     'tests call a few operations of the petstore documents', [SP + 'v2_0/objects.py'], [('Operation.__call__', SP + 'v2_0/objects.py')])

prop('C08', 'Only declared content types are sent and accepted',
     'The Content-Type of a request with a payload is the one chosen by the caller, else the first declared by the operation, else JSON (form fields are always url-encoded and files multipart, the choice concerns bodies), Accept is the chosen or first declared one, '
     'and SchemaError is raised exactly when the result is not among the declared ones; an explicit empty list of an operation clears the inherited types. The body is encoded by the codec of that content type and a request without payload has no Content-Type.',
     ['inputs', 'programs'], 'every list of declared types, explicit choice, and kind of payload', 'tests cover single-entry lists and a few choices',
     ['pyswagger/io.py'], [('Request.prepare, _prepare_body, _prepare_forms, _prepare_files', 'pyswagger/io.py')])

prop('C09', 'Request URLs are built from scheme, host, base path and path parameters',
     'The URL of a prepared request is the negotiated scheme, the document\'s host (else the host it was loaded from, else localhost), the base path and the path template with every path parameter percent-encoded (reserved characters included) so that it cannot '
     'leave its segment; the url_netloc and url_scheme options replace just those parts, and an explicitly set scheme is honoured or rejected.',
     ['inputs', 'programs'], 'every parameter value, host/basePath combination, scheme list and option', 'tests use plain values',
     ['pyswagger/io.py', SC + 'v2_0/patch_obj.py', 'pyswagger/core.py'], [('Request.prepare, Request._patch', 'pyswagger/io.py'), ('PatchObject', SC + 'v2_0/patch_obj.py')])

prop('C10', 'Multipart bodies are framed correctly',
     'A multipart payload holds one part per form field and per file, in order, each opened by the boundary announced in the Content-Type, with its own name, file name and optional content type and transfer encoding headers, a blank line, '
     'the exact content (text encoded by the requested encoding, files read from the given stream or from disk) and closed by CRLF; it ends with the closing boundary and every file it opened is closed.',
     ['inputs'], 'every number and kind of fields and files up to three', 'tests compare one or two complete payloads', ['pyswagger/io.py'], [('Request._prepare_files', 'pyswagger/io.py')])

prop('C11', 'Requests and responses can be reset and reused',
     'Preparing and sending the same request again after a reset gives the same URL, headers and payload as the first time, and a reset response keeps no status, header, raw or decoded data of an earlier exchange. Parameters and options given for '
     'one exchange never change the operation or later requests.',
     ['histories'], 'sequences of call, prepare, apply and reset', 'tests send each request once', ['pyswagger/io.py', CL], [('Request.reset, Response.reset', 'pyswagger/io.py')])

prop('C12', 'Credentials go only where the document says',
     'Credentials registered under a security name are added to a request exactly when the operation\'s effective security (its own, else the document\'s; an empty list means none) names them: basic as an Authorization header with base64 user:password, '
     'apiKey in the declared header or query parameter, oauth2 as its token header. An unknown name or type raises ValueError, a re-registered credential replaces the former, and applying credentials twice adds them once.',
     ['inputs', 'programs', 'histories'], 'every scheme type, location, security list and registration history', 'tests use one fixed document',
     ['pyswagger/core.py', SC + 'v2_0/patch_obj.py'], [('Security.update_with, Security.__call__', 'pyswagger/core.py'), ('PatchObject', SC + 'v2_0/patch_obj.py')])

prop('C13', 'Every client sends exactly the prepared request and reports the response',
     'Each HTTP client resets the pair, applies credentials, prepares the request with a scheme both sides support, applies the per-request options and sends once: the upper-case method, the final URL, all query pairs, composed headers and payload of the request. '
     'The status, headers and raw body of what came back are the ones applied to the response that is returned.',
     ['inputs', 'histories', 'fault_sequences'], 'every client and every request shape (query, form, body, files)', 'tests run each client against a few mocked calls and no query-carrying upload or repeated headers',
     [CL + 'requests.py', CL + 'tornado.py', CL + 'flask.py', CL + 'webapp2.py', 'pyswagger/core.py'], [('request() of each client', CL), ('BaseClient', 'pyswagger/core.py')])

prop('C14', 'Composed headers contain the request\'s and the caller\'s headers',
     'Composing headers yields every header of the request and every header passed by the caller (dict or list of pairs), repeated names kept as separate pairs or, on request, joined by commas in order; in dict form the request\'s headers win. '
     'The caller\'s headers and the request\'s are not modified and any other type is rejected.',
     ['inputs'], 'every combination of header lists, options and output form', 'tests have a few literal combinations', ['pyswagger/core.py'], [('BaseClient.compose_headers', 'pyswagger/core.py')])

prop('C15', 'Responses are decoded by the declaration that matches their status',
     'Applying a status, headers and raw body decodes the body with the codec of the Content-Type header (any case, parameters ignored, JSON when absent) and converts it by the schema declared for exactly that status, else for default, else leaves it raw; declared headers are converted, '
     'repeated headers collect all values in order. With the raw-body-only option nothing is decoded, and applying a body without any status raises.',
     ['inputs', 'programs'], 'every status, declared set of responses, header order and body', 'tests use a few fixed responses', ['pyswagger/io.py'], [('Response.apply_with', 'pyswagger/io.py')])

prop('C16', 'MIME codecs are selected by media type, ignoring case and parameters',
     'Encoding and decoding use the codec registered for the media type, compared without case, surrounding blanks and parameters; an unregistered type raises. Registration overrides for that application only, unregistering removes it, JSON and plain text are available from the start, and '
     'JSON decoding accepts text and UTF-8 bytes.',
     ['inputs', 'histories'], 'every spelling of a media type and registration history', 'tests check three literals', [PR + 'codec.py'], [('MimeCodec, JsonCodec, PlainCodec', PR + 'codec.py')])

prop('C17', 'Header collections ignore case but keep the original spelling',
     'Setting, reading, testing, deleting and updating a header collection treats names that differ only in case as the same entry, the last assignment wins, and iteration yields each entry once with the spelling and value last set, consistently over keys, values, items and length.',
     ['inputs', 'histories'], 'sequences of operations with arbitrary names', 'tests check a few literals', ['pyswagger/utils.py'], [('CaseInsensitiveDict', 'pyswagger/utils.py')])

prop('C18', 'Every field of a document is readable on its object',
     'Every field that the Swagger 1.2 and 2.0 specifications define for an object can be read back from the loaded object: the value given, an object of the right kind for nested objects (also inside lists and maps), and the specified default when absent. '
     'Unknown fields do no harm, objects know their parent, and a field of the wrong structural kind raises an error. (In a 1.2 resource list the API objects are replaced by the loaded resources.)',
     ['programs'], 'every object kind, every field, present or absent', 'tests read selected fields of sample documents', [SP + 'v2_0/objects.py', SP + 'v2_0/parser.py', SP + 'v1_2/objects.py', SP + 'v1_2/parser.py', SP + 'base.py'],
     [('__swagger_fields__ and __swagger_child__ tables', SP), ('Context.parse, BaseObj.__init__', SP + 'base.py')])

prop('C19', 'Dumping gives back the loaded document',
     'Dumping an unprepared document yields every field that was given with a value other than its default, at every depth, with its original value and nothing else; falsy values such as 0, false and the empty string are kept. Comparing two objects reports equality exactly when all their fields are equal and otherwise the path of a difference.',
     ['programs'], 'every object kind and every field with arbitrary values', 'tests compare the dumps of sample documents', [SP + 'base.py'], [('BaseObj.dump, BaseObj.compare', SP + 'base.py')])

prop('C20', 'References to parameters, responses and path items are merged completely',
     'A parameter, response or path item given by reference (over any number of steps) behaves as the referenced one: every field it does not set itself is taken from the target, plain fields it sets to something else than their default win, and neither the target nor other users of it change. '
     'A target of another kind raises TypeError and a circle of references ends.',
     ['programs'], 'every field of the three kinds, chains of references and circles', 'tests merge two or three fixed objects', [SC + 'v2_0/merge.py', SP + 'base.py'], [('Merge, BaseObj.merge', SC + 'v2_0/merge.py')])

prop('C21', 'References are resolved relative to the document that contains them',
     'Every $ref in a loaded document, wherever a reference is allowed, denotes the object at that location relative to the document it appears in: local pointers to that document, relative paths to files next to it (with . and .. removed), absolute URLs as they are. '
     'After preparation every schema reference is linked to its target and no allowed place is left out.',
     ['programs'], 'every place a reference may appear and every form of reference', 'tests use a few multi-file documents', [SC + 'v2_0/norm_ref.py', SC + 'v2_0/resolve.py', 'pyswagger/utils.py'], [('NormalizeRef, Resolve', SC + 'v2_0'), ('normalize_jr', 'pyswagger/utils.py')])

prop('C22', 'Resolving a reference returns the object it names',
     'Resolving a JSON reference returns exactly the object at that document and pointer, loading, upgrading or preparing it at most once and giving the same object for repeated and overlapping references; escaped characters (~0 and ~1) in the pointer are honoured. '
     'An empty, malformed or dangling reference raises an error instead of returning another object.',
     ['inputs', 'programs', 'histories'], 'sequences of references into loaded and unloaded documents', 'tests resolve a fixed list of references', ['pyswagger/core.py', SP + 'base.py'], [('App.resolve, App.load_obj, App.prepare_obj, App.s', 'pyswagger/core.py')])

prop('C23', 'Documents are fetched once, through the configured getter and hook',
     'A document is fetched through the getter (the explicit one; else a local getter for file locations; else the resolver\'s default, normally the URL getter) at the location the load hook returns, and the reference then selects the sub-document its pointer names. Further references to the same document reuse the fetched copy, '
     'different documents are never mixed up, and an empty document or a pointer that does not exist raises.',
     ['inputs', 'histories'], 'sequences of references with hooks and getters', 'tests count few fetches', ['pyswagger/resolve.py', 'pyswagger/getter.py'], [('Resolver.resolve', 'pyswagger/resolve.py')])

prop('C24', 'Names survive JSON pointer encoding and scoped lookup',
     'Encoding a name into a JSON pointer and splitting the pointer gives the name back whatever characters it contains, and splitting and joining are inverse for lists of names. A scoped collection returns the entry whose full key, or whose whole trailing part, equals the requested scopes: '
     'ValueError when several match, KeyError when none does, never a partial match.',
     ['inputs'], 'every name including ~ and /, every set of scoped keys up to three', 'tests use a few names', ['pyswagger/utils.py', SC + 'type_reducer.py'], [('jp_compose, jp_split, ScopeDict', 'pyswagger/utils.py')])

prop('C25', 'Operations inherit from their path item and the document',
     'After preparation an operation has its own consumes, produces, schemes and security when given and else those of the document, all parameters of its path item except those it redefines by name, and its own method, path, base path and URL; every operation of every path and method is reachable by operationId, scoped by its first tag. '
     'Inheriting never changes the path item, the document or sibling operations, and duplicate identifiers raise SchemaError.',
     ['programs'], 'every combination of own and inherited fields, all methods', 'tests look at a few operations', [SC + 'v2_0/patch_obj.py', SC + 'type_reducer.py', 'pyswagger/core.py'], [('PatchObject, TypeReduce', SC)])

prop('C26', 'Loading and preparing runs every step and reports invalid documents',
     'Preparing a document normalises, links, validates, merges and completes it in that order for every supported version, raises in strict mode exactly when validation reports an error or schema references form a circle, and otherwise leaves a usable application; a document of an unsupported version raises NotImplementedError at load. '
     'The scheme, version, raw and prepared roots reported by the application are those of the document.',
     ['programs', 'configurations'], 'versions, strictness and valid or invalid documents', 'tests prepare sample documents', ['pyswagger/core.py', 'pyswagger/scan.py'], [('App.load, App.prepare, App.validate, App.create', 'pyswagger/core.py')])

prop('C27', 'Circular documents terminate and are detected',
     'Loading, preparing, resolving, dumping-free traversal and producing values terminate for documents whose references form circles of any kind (schema properties, items, allOf, additionalProperties, parameters, responses, path items). In strict mode every circle of schema references, and nothing else, raises CycleDetectionError; '
     'the reported circles are exactly the elementary ones, each once.',
     ['programs'], 'every shape of reference graph up to three nodes', 'tests have a few fixed circular documents', [SC + 'cycle_detector.py', 'pyswagger/utils.py', SC + 'v2_0/aggt.py', SC + 'v2_0/merge.py'], [('walk, CycleGuard, CycleDetector', 'pyswagger/utils.py')])

prop('C28', 'A scan visits every object once, with its pointer, and calls every handler',
     'Scanning a document visits each contained object exactly once with the JSON pointer of its position (never entering linked targets or below a leaf kind), and calls, for each visitor, every handler registered for its class or a base class (below BaseObj) exactly once, passing results to the visitor\'s result function. '
     'Handlers of one visitor class never leak into another.',
     ['programs'], 'every tree shape of bounded size and set of registered handlers', 'tests count visits in one document', ['pyswagger/scan.py', SP + 'base.py'], [('Scanner.scan, Dispatcher', 'pyswagger/scan.py'), ('BaseObj._children_', SP + 'base.py')])

prop('C29', 'Swagger 1.2 documents become the equivalent 2.0 document',
     'Loading a Swagger 1.2 resource list yields a 2.0 document with every operation under base path plus path and method, each parameter with its location, type, format, limits, default and enum, each model as a scoped definition with its inherited parents, each authorization as a security scheme, and the resource name as tag, summaries and content types carried over. '
     'References become scoped definitions, and constructs that 2.0 cannot express raise SchemaError.',
     ['programs'], 'every field of every 1.2 object with arbitrary values', 'tests convert the sample documents', [SC + 'v1_2/upgrade.py'], [('Upgrade', SC + 'v1_2/upgrade.py')])

prop('C30', 'Validation reports exactly the violated rules',
     'Validating a 1.2 document reports each missing required field and each forbidden combination (types, references, items, allowMultiple, body names, File, void, authorizations), and a 2.0 document each required property that its schema declares readOnly, with the location and kind of the object; a document without such defects yields no error. '
     'Validation reports all errors, not just the first, and raises only in strict mode.',
     ['programs'], 'every rule violated and not violated, in every object that it concerns', 'tests use one bad document per some rules', [SC + 'v1_2/validate.py', SC + 'v2_0/validate.py'], [('Validate', SC)])

prop('C31', 'Rendered sample values satisfy their declaration',
     'A rendered value has the declared type and lies within the declared limits: bounds and multiples of integers, lengths of plain and password strings, sizes of arrays, members of scalar enums, all required properties and no undeclared ones unless additionalProperties allows. Templates, exclusions and the minimal and maximal options are obeyed for properties and parameters, '
     'and rendering ends unless required properties recurse for ever.',
     ['inputs', 'configurations'], 'every declaration with arbitrary bounds and every random outcome', 'tests sample random outcomes', [PR + 'render.py'], [('Renderer', PR + 'render.py')])

prop('C32', 'Documents are decoded as JSON or YAML from text, bytes or dict',
     'A fetched document given as dict is used as it is, bytes are decoded as UTF-8, text starting with a brace is read as JSON and any other as YAML; other kinds raise ValueError and undecodable text raises. A local getter finds the file it is pointed at, or the well-known file names in a directory, and numeric YAML response codes work as their text form.',
     ['inputs', 'configurations'], 'every kind of fetched value and file layout', 'tests use the sample folders', ['pyswagger/getter.py', SC + 'v2_0/yaml.py', 'pyswagger/utils.py'], [('Getter.__next__, LocalGetter', 'pyswagger/getter.py'), ('YamlFixer', SC + 'v2_0/yaml.py')])

prop('C33', 'Documents and responses are data, never code',
     'Nothing read from a document, a server response or a request argument is ever executed, imported, unpickled, formatted as a template with attribute access, or passed to a shell; documents are parsed with the safe YAML loader and modules are imported only by names fixed in the library and the checked document version.',
     ['inputs'], 'every call in the library that can execute or load code', 'no test passes hostile documents', ['pyswagger/getter.py', 'pyswagger/core.py', 'pyswagger/utils.py'], [('yaml.safe_load, import_string', 'pyswagger/getter.py')])

prop('C34', 'Files and connections that the library opens are closed',
     'Every file, URL handle or module file opened by the library is closed on every path, including when reading, parsing or sending raises, and the library itself does not close streams given by the caller.',
     ['fault_sequences', 'inputs'], 'every open and every exception point after it', 'tests never inject failures', ['pyswagger/getter.py', 'pyswagger/io.py', CL + 'requests.py', 'pyswagger/utils.py'], [('with/finally around open and urlopen', 'pyswagger')])

prop('C35', 'Applications, requests and documents share no mutable state',
     'Two applications, two requests or two objects of a document never influence each other through shared defaults: class-level tables, default arguments and default field values are not modified by loading, preparing, calling, registering codecs or primitives, and each object gets its own copy of a mutable default.',
     ['histories', 'programs'], 'pairs of applications and interleaved use', 'tests share no state by accident only', [SP + 'base.py', PR + '__init__.py', PR + 'codec.py', 'pyswagger/core.py'], [('copy of defaults in BaseObj.__init__', SP + 'base.py')])

prop('C36', 'Documented failures raise the documented exceptions',
     'Wrong use and bad data surface as the documented exceptions and never as accidental ones or as silence: every name and attribute that the library uses exists on every path, every raised value is an exception that can be built with the given arguments, and no handler swallows an unrelated error.',
     ['inputs', 'programs'], 'every raise statement, name and handler of the library', 'tests reach about half of the raise statements', ['pyswagger'], [('raise statements', 'pyswagger')])

prop('C37', 'Options given when loading take effect throughout the application',
     'The url, getter, parser, load hook, separator, primitive factory, codec and resolver passed when loading an application are the ones used for it: the getter for the document that is loaded (and the resources of a 1.2 resource list), everything else throughout the application and whatever it loads later, with documented defaults when omitted. Passing both a hook and a resolver is rejected. A file path or complete URL is accepted, URLs without scheme that have a host or no path raise ValueError.',
     ['configurations'], 'every subset of the options', 'tests pass single options', ['pyswagger/core.py', 'pyswagger/utils.py'], [('App.load, App.__init__, normalize_url', 'pyswagger/core.py')])

prop('C38', 'ISO-8601 text is read as the instant it denotes',
     'A date or date-time text is read field by field: year, month, day, optional time, seconds and fraction scaled to microseconds (further digits are dropped), and Z or a signed offset as the time zone. A text without time is midnight without zone; a text that is not ISO-8601, has something before or after the instant, or a zero year, month or day raises ValueError.',
     ['inputs'], 'every field and every combination of optional parts', 'tests check some literals', ['pyswagger/utils.py'], [('from_iso8601, FixedTZ', 'pyswagger/utils.py')])

prop('C39', 'URL helpers agree on what a document is',
     'Splitting, joining, normalising and de-relativising URLs and references keep scheme, host, query and fragment. The folder of a document is its URL without the file name for every supported extension (and only these), joining never doubles or drops a slash, dots are resolved, and the helpers, the local getter and the tables of file names agree on the supported extensions.',
     ['inputs'], 'every URL part and supported extension', 'tests use a few URLs', ['pyswagger/utils.py', 'pyswagger/consts/private.py', 'pyswagger/getter.py'], [('url_dirname, url_join, jr_split, derelativise_url, patch_path', 'pyswagger/utils.py')])

prop('C40', 'Concurrent use of one application is safe',
     'Several threads calling operations, resolving references and sending requests through one prepared application see the same results as one thread.',
     ['schedules'], 'every interleaving of threads', 'tests are single threaded', ['pyswagger/core.py', 'pyswagger/io.py'], [('no locks are used', 'pyswagger')],
     na='The library takes no locks and documents no guarantee; the caches are filled lazily by check-then-act, so the truth depends on interleavings of the interpreter, not on the shape of the code.')

prop('C41', 'Sent bytes are understood by a conforming HTTP server',
     'The bytes that the HTTP libraries put on the wire for a prepared request are parsed by a conforming server into the same method, path, query, headers and payload.',
     ['inputs'], 'every request', 'tests mock the transport', [CL], [('delegated to requests, tornado, werkzeug, webapp2', CL)],
     na='The encoding happens in third-party libraries whose sources are not part of the repository; the part decided here ends at the arguments handed to them (C13).')

prop('C42', 'Rendered values are well distributed',
     'Rendered sample values cover the whole declared range with a reasonable distribution.',
     ['inputs'], 'the distribution of random outcomes', 'tests cannot measure distributions', [PR + 'render.py'], [('random module', PR + 'render.py')],
     na='A statement about probabilities of runtime values; no static argument in reach decides it (the range itself is decided by C31).')


def main():
    checks, na = [], []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': None}}) + '\n')
    for p in P:
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
            continue
        path = os.path.join(HERE, 'rules', p['id'].lower() + '.py')
        if not os.path.exists(path):
            na.append({'property': p['id'], 'reason': 'no check has been built for it yet'})
            continue
        checks.append({
            'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
            'technique': p['technique'] or 'abstract interpretation of the source (value provenance, trace partitioning) against contracts at the public entry points',
            'level': 'other',
            'level_note': p['note'] or ('Every feasible trace partition of the generic scenarios named in the evidence is enumerated from the current source and meets the contract; '
                                        'structures are unrolled to small sizes, library behaviour is modelled by hand, and partitions the domain cannot decide are counted as inconclusive and raise no alarm.')})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
                   'notes': 'Static analysis only: the checks parse /repo and never import or run it. python3 (stdlib) is all they need.'}, f, indent=1)
        f.write('\n')


main()
