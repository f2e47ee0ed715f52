"""Source of properties.jsonl and MANIFEST.json (python3-vt tools/gen.py)."""

# id: (title, statement, over, quantifier text, why tests can't, files, mechanisms)
P = {}


def prop(id, title, statement, over, text, why, files, mech):
    P[id] = {
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': a, 'where': b} for a, b in mech]},
    }


prop('C09', 'Header collections are ordered case-insensitive multimaps',
     'A header collection holds an ordered list of name/value pairs and every operation acts on that '
     'list exactly: lookup and membership ignore the case of the name and see the first match, '
     'multi-value access sees all matches in order, adding appends, replacing keeps the position of '
     'the first match and drops the other matches, and deleting removes every match. Pairs whose name '
     'does not match are never lost, reordered or altered. Copies are independent of the original.',
     ['inputs', 'histories'],
     'every list of pairs, every name in any capitalisation, every operation and sequence of operations',
     'The suite checks a few fixed header lists; it cannot cover every mix of repeated names, '
     'capitalisations and positions.',
     ['verktyg/http/basic.py'],
     [('pair list behind Headers', 'verktyg/http/basic.py: class Headers')])

prop('C10', 'Header values can never contain line breaks',
     'No way of putting a value into a header collection or into a response lets a carriage return or '
     'line feed reach the emitted header list: such a value is refused with a ValueError. A refused '
     'operation leaves the existing headers unchanged, and values without line breaks are accepted and '
     'stored unchanged.',
     ['inputs', 'histories'],
     'every string value with or without line breaks, through every entry point that stores header values',
     'The suite tries a handful of entry points with one or two bad strings; response splitting needs '
     'only one entry point or one position that was not tried.',
     ['verktyg/http/basic.py', 'verktyg/responses.py'],
     [('value validation on every write', 'verktyg/http/basic.py: Headers._validate_value and its callers')])

prop('C15', 'Request bodies are never read past their declared length',
     'The body stream of a request hands out exactly the first content-length bytes of the server '
     'stream, in order, whatever mix of sized, unsized and negative-sized reads, line reads and '
     'iteration is used, and never takes a byte more than that from the server. Without a valid '
     'content length it is empty unless the server promises termination or the caller opts out. '
     'A connection that ends early or fails is reported as a client disconnect, not as a short body.',
     ['inputs', 'histories'],
     'every stream content, limit, size argument and sequence of read operations',
     'The suite performs a few reads with fixed sizes; over-reading blocks the server or eats the next '
     'request, and shows only for particular size/position combinations.',
     ['verktyg/wsgi.py'],
     [('read accounting', 'verktyg/wsgi.py: class LimitedStream'),
      ('choice of body stream', 'verktyg/wsgi.py: get_input_stream, get_content_length')])

prop('C16', 'Byte ranges are resolved and described exactly',
     'A Range header resolves to a slice only when it is one satisfiable byte range, and then to '
     'exactly the requested bytes clipped to the resource, always within the resource. Formatting and '
     'parsing of Range and Content-Range values are inverse to each other, and malformed or invalid '
     'values are reported as absent rather than raising.',
     ['inputs'],
     'every header text, every range list, every resource length including unknown',
     'Tests sample a few ranges; off-by-one and clipping errors appear only at boundaries (start equal '
     'to length, suffix ranges, unknown lengths).',
     ['verktyg/http/cache_control.py', 'verktyg/http/basic.py'],
     [('range resolution', 'verktyg/http/cache_control.py: Range, ContentRange'),
      ('parsers', 'verktyg/http/cache_control.py: parse_range_header, parse_content_range_header')])

prop('C21', 'Host validation only lets trusted hosts through',
     'With a trust list, a request host is accepted exactly when, ports aside, it equals a listed name '
     'or is a subdomain of a name listed with a leading dot; anything else raises a security error '
     'instead of being returned, for the host and for every URL derived from it. The host itself is the '
     'first forwarded host, else the Host header, else the server name with its non-default port.',
     ['inputs', 'configurations'],
     'every host header, forwarded host, server name and trust list',
     'Tests try two names; look-alike hosts (suffix without a dot boundary, ports, empty hosts, odd '
     'positions in the list) are what an attacker sends.',
     ['verktyg/wsgi.py', 'verktyg/requests.py', 'verktyg/urls.py'],
     [('trust decision', 'verktyg/wsgi.py: host_is_trusted'),
      ('host selection', 'verktyg/wsgi.py: get_host')])

prop('C23', 'Mounted applications see the full path, and the longest mount wins',
     'The mounting middleware calls the application mounted at the longest prefix of whole path '
     'segments, or the fallback when there is none. The script name followed by the path info that '
     'application sees is always exactly what the server passed, and nothing else in the environment '
     'changes.',
     ['inputs', 'configurations'],
     'every path, script name and set of mounts',
     'The suite uses one fixed set of mounts and a few paths.',
     ['verktyg/wsgi.py'],
     [('prefix search', 'verktyg/wsgi.py: DispatcherMiddleware')])

prop('C01', 'Accept matching is exact and the best matching option decides',
     'An offered content type, language or charset is acceptable exactly when some option of the '
     'client header equals it, is a wildcard for it, or (languages) is a prefix of whole subtags. '
     'The match reported is the best over all options, ranked by how specific the option is and then by '
     'quality times source quality, wherever that option stands in the header. Option qualities are '
     'clipped to the range 0 to 1 and default to 1.',
     ['inputs'],
     'every offered value, every list of options in any order, every quality',
     'Tests use a few fixed headers; ordering bugs appear only when specificity and quality disagree or '
     'the best option is not the first or last.',
     ['verktyg/accept/_base.py', 'verktyg/accept/content_type.py', 'verktyg/accept/language.py',
      'verktyg/accept/charset.py'],
     [('search for the best option', 'verktyg/accept/_base.py: Value.acceptability'),
      ('order of matches', 'verktyg/accept/_base.py: Acceptability'),
      ('matching of one option', 'verktyg/accept/*: _acceptability_for_option')])

prop('C02', 'The best acceptable representation is selected',
     'Among the representations offered, one is selected exactly when at least one is acceptable in '
     'every dimension it declares, each dimension being judged against its own client header; otherwise '
     'the request is reported as not acceptable. The selected one is acceptable and no acceptable offer '
     'is better: content type counts first, then language, then charset, then source quality, and an '
     'undeclared dimension ranks below a declared one.',
     ['inputs', 'configurations'],
     'every list of offers in any order and every combination of client headers',
     'Tests compare two or three offers along one dimension; mixed preferences and other orders are not '
     'reached.',
     ['verktyg/accept/__init__.py'],
     [('selection loop', 'verktyg/accept/__init__.py: select_representation'),
      ('lexicographic order', 'verktyg/accept/__init__.py: Acceptability'),
      ('dimension to header wiring', 'verktyg/accept/__init__.py: Representation.acceptability')])

prop('C03', 'Dispatch considers exactly the bindings of the endpoint and method',
     'A lookup selects, by the client headers, among exactly the bindings added under that name and '
     'method; a HEAD request falls back to the GET bindings only if the name has no HEAD binding. An '
     'unknown name, a known name without that method, and a method without acceptable representation are '
     'reported as three different errors. Views and nested dispatchers contribute all of their bindings.',
     ['inputs', 'configurations', 'histories'],
     'every set and order of bindings, every name, method and client header',
     'Tests register a handful of bindings under one or two names.',
     ['verktyg/dispatch.py', 'verktyg/views.py'],
     [('binding index', 'verktyg/dispatch.py: Dispatcher.add_bindings'),
      ('lookup', 'verktyg/dispatch.py: Dispatcher.lookup')])

prop('C04', 'Exceptions reach the nearest acceptable handler',
     'The handler chosen for an exception is registered for the first class in its method resolution '
     'order that has a handler acceptable to the client, and is the best acceptable one registered for '
     'that class; without any there is no handler. Handlers of nested dispatchers count like handlers '
     'added directly.',
     ['inputs', 'configurations'],
     'every set of handlers over any exception classes, every raised class and client header',
     'Tests use one or two handlers; fall-through past unacceptable handlers and multiple inheritance are '
     'not reached.',
     ['verktyg/exception_dispatch.py'],
     [('lookup along the resolution order', 'verktyg/exception_dispatch.py: ExceptionDispatcher.lookup')])

prop('C11', 'A multi dict is a mapping from keys to lists of values',
     'A MultiDict whose keys all have at least one value behaves as a dict of non-empty lists: item access '
     'and get give the first value, getlist all of them in the order added, a write or removal changes '
     'exactly the named key, and every way of iterating agrees. Lists and dicts it was built from, lists it '
     'hands out (other than by setlistdefault) and copies of it are independent. Conversions drop or default '
     'values that raise ValueError. A combined dict reads its parts in order, first part first.',
     ['inputs', 'histories'],
     'every content, every key, every operation and sequence of operations',
     'Tests try a few fixed dicts; aliasing and rarely used operations after one another are not reached.',
     ['verktyg/datastructures.py'],
     [('value lists', 'verktyg/datastructures.py: MultiDict'),
      ('conversion', 'verktyg/datastructures.py: TypeConversionDict.get, MultiDict.getlist'),
      ('combination', 'verktyg/datastructures.py: CombinedMultiDict')])

prop('C12', 'An ordered multi dict keeps its pairs in the order they were added',
     'Through any sequence of operations an OrderedMultiDict is a list of pairs: adding appends, setting a '
     'key removes its pairs and appends the new ones, deleting or popping removes exactly the pairs of the '
     'key. Every way of iterating, lookup, length, equality, copies and pickles agree with that list.',
     ['inputs', 'histories'],
     'every sequence of operations on any keys and values',
     'The order is kept in a doubly linked list beside the dict; tests remove at one or two positions and '
     'never at each end and then add again.',
     ['verktyg/datastructures.py'],
     [('linked list', 'verktyg/datastructures.py: _omd_bucket, OrderedMultiDict')])

prop('C13', 'Immutable containers cannot be changed',
     'Every operation that would change an immutable list, dict, multi dict (plain, ordered or combined), '
     'request header view, authorization or request cache control raises TypeError and leaves the container '
     'and what it was made from as they were. Its copy() is an independent mutable container, and equal '
     'immutable containers have equal hashes.',
     ['inputs', 'histories'],
     'every content and every mutating operation of list, dict, multi dict and headers',
     'Tests try some of the operations; any operation inherited and not overridden changes the container.',
     ['verktyg/datastructures.py', 'verktyg/http/basic.py', 'verktyg/http/auth.py',
      'verktyg/http/cache_control.py', 'verktyg/wsgi.py'],
     [('refusal', 'verktyg/datastructures.py: Immutable*Mixin'),
      ('headers', 'verktyg/http/basic.py: ImmutableHeadersMixin')])

prop('C14', 'A header set is a list of names that differ but for case',
     'Through any sequence of operations a HeaderSet holds each name once, whatever its capitalisation, in '
     'the order and capitalisation in which it was added; membership, length, find, index, removal and '
     'iteration agree and ignore case. on_update is called once by each operation that changes the set, and '
     'not by add, update, remove or discard when they change nothing.',
     ['inputs', 'histories'],
     'every sequence of operations on any names',
     'The names are kept both in a list and in a set of lower case names; tests do not reach the sequences '
     'after which these disagree.',
     ['verktyg/http/basic.py'],
     [('list and set', 'verktyg/http/basic.py: HeaderSet')])

prop('C06', 'A path is decided by the route of highest priority that fits it',
     'match() returns the endpoint and converted values of the first fitting route of the subdomain (or host), '
     'where routes without variables come first, then those with more parts, then, part by part, fixed text '
     'before variables and longer before shorter; without one the path is not found. Build-only routes never '
     'match. A missing final slash, an alias, a value equal to a default and redirect_to lead to a redirect to '
     'the canonical URL of the same endpoint and values (the first three keeping the query), and test() agrees. '
     'Converters are made with the arguments written in the pattern; a malformed pattern is refused.',
     ['inputs', 'configurations'],
     'every table of routes in every order of adding, every path, host, subdomain and query',
     'Tests use small fixed tables; which of several overlapping routes wins, and where chains of redirects '
     'end, depends on combinations they do not reach.',
     ['verktyg/routing.py'],
     [('match loop', 'verktyg/routing.py: MapAdapter.match'),
      ('pattern', 'verktyg/routing.py: Route.compile, Route.match'),
      ('priority', 'verktyg/routing.py: Route.match_compare_key, URLMap.update'),
      ('binding', 'verktyg/routing.py: URLMap.bind_to_environ')])

prop('C07', 'Route factories yield independent copies with one thing changed',
     'Subdomain, Submount and EndpointPrefix yield, in order, an unbound copy of every route below them that '
     'differs only in the subdomain, the start of the pattern or the endpoint; factories nest. A route template '
     'fills its placeholders in and keeps everything else of the route. The routes and dicts given are never '
     'changed, and changing a copy changes nothing else.',
     ['inputs', 'configurations'],
     'every route with any of its options, every nesting of factories',
     'Tests check patterns and endpoints of a few routes; options such as strict_slashes, alias, host or '
     'defaults that a factory loses go unnoticed.',
     ['verktyg/routing.py'],
     [('copying', 'verktyg/routing.py: Route.empty'),
      ('factories', 'verktyg/routing.py: Subdomain, Submount, EndpointPrefix, RouteTemplateFactory')])

prop('C08', 'A built URL leads back to the endpoint and values it was built from',
     'build() uses the first route of the endpoint, canonical before alias, more arguments first, then more '
     'defaults, whose arguments are all given and whose defaults are not contradicted; without one it raises '
     'BuildError. Values the route does not use become the query, None values are left out. Matching the path '
     'of the URL gives the endpoint and the values back, unless they are empty or hold dot or empty segments. '
     'The URL names the host exactly if it differs from the bound one or is asked for.',
     ['inputs', 'configurations'],
     'every table of routes, every set of values, host, script name and charset',
     'Tests build a few URLs from plain values; special characters, padding and competing routes are not '
     'combined.',
     ['verktyg/routing.py'],
     [('choice', 'verktyg/routing.py: MapAdapter.build, Route.build_compare_key, Route.suitable_for'),
      ('writing', 'verktyg/routing.py: Route.build, BaseConverter.to_url')])

prop('C05', 'An application answers every request by the one right view or handler',
     'For each request the binding found for the matched endpoint, method and client headers is called once '
     'with the application, the request and the matched values. Whatever Exception is raised on the way goes, '
     'as the very exception, once to the nearest acceptable handler, and out of the application if there is '
     'none. The response is sent unchanged through the middleware, the layer added last outermost, and response '
     'and request are closed afterwards, whatever happens. Later changes to the builder do not affect the '
     'application.',
     ['inputs', 'configurations'],
     'every set of routes, bindings, handlers and middleware, every request and every failure on the way',
     'Tests send a few requests to small applications with one layer of middleware and one or two handlers.',
     ['verktyg/application.py', 'verktyg/views.py'],
     [('dispatch', 'verktyg/application.py: BaseApplication._get_response'),
      ('closing and middleware', 'verktyg/application.py: BaseApplication._wsgi_inner, BaseApplication.__init__'),
      ('views', 'verktyg/views.py: View, JsonView, ClassView')])

prop('C17', 'Entity tags are compared as HTTP says, and an unmodified resource is answered without its body',
     'Quoting an entity tag is undone by unquoting; a tag holding a quote is refused. A header of tags is read '
     'as written, for any text without failing, and written back so that it reads the same. Strong comparison '
     'sees the strong tags, weak comparison both kinds, a star every tag. For GET and HEAD a response is '
     'unmodified exactly if its tag is named by If-None-Match, or, when no tags are compared, its date is not '
     'after If-Modified-Since; it is then sent as an empty 304 without the headers that describe the body.',
     ['inputs'],
     'every tag, every header text, every combination of tags and dates',
     'Tests compare a few tags; empty or odd tags, weak ones on either side and malformed headers are not '
     'tried.',
     ['verktyg/http/cache_control.py', 'verktyg/responses.py'],
     [('tags', 'verktyg/http/cache_control.py: ETags, parse_etags, quote_etag, unquote_etag'),
      ('conditions', 'verktyg/http/cache_control.py: is_resource_modified; verktyg/responses.py: '
       'ETagResponseMixin.make_conditional')])

prop('C18', 'A response is framed by the headers it sends',
     'What a response sends is its data, encoded in its charset, or nothing for HEAD, 1xx, 204 and 304. A '
     'Content-Length is announced whenever the length is known without reading a stream, it equals the number '
     'of bytes of the data unless it was set explicitly, it is 0 for 1xx and 204 and left out of a 304 together '
     'with the other headers that describe the body; every other header is sent unchanged, once, in order, and '
     'the response itself is not changed. The status line has the status code and, if it is registered, its reason. A Location is sent '
     'absolute and in ASCII. Closing what was sent closes the body and runs the registered functions in order. '
     'A response made from an application has its status, headers and body.',
     ['inputs', 'histories'],
     'every body, header list, status, method and sequence of operations on the response',
     'Tests look at a few responses; lengths after writes, text in other charsets, streams and statuses '
     'without a body are not combined.',
     ['verktyg/responses.py', 'verktyg/test.py'],
     [('framing', 'verktyg/responses.py: BaseResponse.get_wsgi_headers, BaseResponse.get_app_iter'),
      ('data', 'verktyg/responses.py: BaseResponse.set_data, BaseResponse.get_data, BaseResponse.freeze, '
       'ResponseStream'),
      ('applications', 'verktyg/test.py: run_wsgi_app')])

prop('C19', 'A cookie that was set comes back as it was set',
     'A cookie is written as its name, its value in plain ASCII characters none of which can end the value or '
     'start another attribute or header, and exactly the attributes asked for, each once, with Expires matching '
     'a Max-Age. The value, whatever it is, is read back the same, and every cookie is found in order whatever '
     'lies between them. No Cookie header makes the reader fail. A client keeps the cookies it was sent and '
     'sends them back until they are deleted.',
     ['inputs', 'histories'],
     'every name and value, every combination of attributes, every Cookie header',
     'Tests write and read a few cookies of harmless values; quotes, control characters, other charsets and '
     'malformed neighbours are not combined.',
     ['verktyg/http/cookies.py', 'verktyg/responses.py', 'verktyg/requests.py', 'verktyg/test.py'],
     [('writing', 'verktyg/http/cookies.py: dump_cookie, _cookie_quote, _make_cookie_domain'),
      ('reading', 'verktyg/http/cookies.py: parse_cookie, _cookie_parse_impl, _cookie_unquote'),
      ('keeping', 'verktyg/responses.py: set_cookie, delete_cookie; verktyg/test.py: _TestCookieJar')])

prop('C20', 'Structured header values are read back as they were written',
     'Quoting a header value is undone by unquoting it; only tokens are left unquoted, and nothing in a quoted '
     'value can end it. Lists, sets, dicts, values with options, credentials and challenges written by the '
     'library are read back the same, in order, and no text makes the readers fail. Basic credentials hold the '
     'user name up to the first colon and everything after it as password; incomplete or malformed credentials '
     'are none. The quoted name of a file that is a network path is read as it stands.',
     ['inputs'],
     'every text, list, dict and set of options',
     'Tests read and write a few values; separators, quotes and backslashes inside them are hardly tried.',
     ['verktyg/http/basic.py', 'verktyg/http/auth.py'],
     [('quoting', 'verktyg/http/basic.py: quote_header_value, unquote_header_value'),
      ('lists and options', 'verktyg/http/basic.py: dump_header, parse_list_header, parse_dict_header, '
       'dump_options_header, parse_options_header, parse_set_header'),
      ('credentials', 'verktyg/http/auth.py: parse_authorization_header, parse_www_authenticate_header, '
       'WWWAuthenticate.to_header')])

prop('C28', 'Streams are cut into lines, chunks and blocks without losing or changing a byte',
     'Going over a stream or iterator of text or bytes by lines gives every line once, in order, with its line '
     'end (\\n, \\r or \\r\\n), however the data is cut into pieces and whatever the size of the buffer; going '
     'over it by a separator of any length gives exactly the parts between the separators; nothing behind the '
     'limit is read. A wrapped file is handed out in blocks of the size asked for, and the wrapper of the '
     'server is used if it has one. A closing iterator hands out the items unchanged and, when closed, closes '
     'what it iterates over and calls the functions given, in order.',
     ['inputs'],
     'every content, every way of cutting it into pieces, every separator, buffer size and limit',
     'Tests go over a few texts cut at lucky places; line ends and separators on the edge of a buffer are '
     'hardly tried.',
     ['verktyg/wsgi.py'],
     [('lines and chunks', 'verktyg/wsgi.py: make_line_iter, make_chunk_iter, _make_chunk_iter'),
      ('files', 'verktyg/wsgi.py: wrap_file, FileWrapper'),
      ('closing', 'verktyg/wsgi.py: ClosingIterator')])

prop('C22', 'Exactly the exported files are served, and nothing outside of the exports',
     'A request for a path below an export is answered with the file of that name below the exported directory, '
     'whole, with its type, length and date, whatever empty or parent segments the path contains; exports are '
     'tried in the order they are given and only if the path is the export or below it. Everything else - other '
     'paths, directories, missing and disallowed files - goes to the wrapped application unchanged. No path '
     'reaches a file outside of the exports. With caching, a client that has the current version gets a 304 '
     'without content; a changed file is sent again.',
     ['inputs'],
     'every path, set of exports, set of disallowed patterns and state of the files',
     'Tests ask for a handful of paths; parent segments, exports inside of each other and changed files are '
     'not tried.',
     ['verktyg/wsgi.py'],
     [('shared data', 'verktyg/wsgi.py: SharedDataMiddleware'),
      ('files', 'verktyg/wsgi.py: wrap_file, FileWrapper')])


prop('C26', 'Views of headers and the headers stay in step',
     'A view of a header of a response - cache directives, content range, header sets, the authentication '
     'challenge, type and parameters, dates and plain values - shows what the header says, and every change of '
     'it is found in the header at once, where the next view shows it; a view without content means no header. '
     'Reading, also of a header that makes no sense, changes nothing, and no other header is touched. The '
     'mappings behind the views tell their owner of each change once it is made. The cache directives of a '
     'request are read by name in the same way. A value that is computed on '
     'first use is computed once for each object.',
     ['inputs'],
     'every sequence of changes through views and accessors, from every starting header',
     'Tests set an attribute and look at the header; sequences of changes, removals and views of the same header '
     'side by side are not tried.',
     ['verktyg/datastructures.py', 'verktyg/http/cache_control.py', 'verktyg/http/auth.py',
      'verktyg/responses.py', 'verktyg/utils.py'],
     [('update notification', 'verktyg/datastructures.py: UpdateDictMixin, CallbackDict'),
      ('directives', 'verktyg/http/cache_control.py: cache_property, _CacheControl, ContentRange'),
      ('accessors', 'verktyg/utils.py: header_property, cached_property'),
      ('response accessors', 'verktyg/responses.py: ETagResponseMixin, CommonResponseDescriptorsMixin, '
                             'WWWAuthenticateMixin')])

prop('C29', 'Converting between URIs and IRIs keeps what they name',
     'iri_to_uri gives a URI of ASCII characters that has the scheme, user, password, host, port, path segments, '
     'query pairs and fragment of the IRI; uri_to_iri unquotes only what does not change the structure, so that '
     'converting back names the same things. A character that separates parts is never made from an escape or '
     'the other way round, and escapes that are not valid stay as they are. url_fix makes a usable URL of what a '
     'user typed and does not touch URLs that are fine.',
     ['inputs'],
     'every URI and IRI',
     'Tests convert a handful of addresses; structural characters in unlikely parts, user names and escapes that '
     'are not valid are not tried.',
     ['verktyg/urls.py'],
     [('conversion', 'verktyg/urls.py: uri_to_iri, iri_to_uri, _encode_netloc, _safe_urlunquote'),
      ('host names', 'verktyg/urls.py: encode_idna, decode_idna'),
      ('repair', 'verktyg/urls.py: url_fix')])

prop('C31', 'A request shows what the environ says',
     'Method, scheme, path, script root, query string, arguments, headers, content type and length, addresses, '
     'access route, dates and the flags of a request are those in the environ of the server, converted as '
     'documented, with the documented default if they are missing or malformed, and reading them changes '
     'nothing. The path starts with exactly one slash and the root does not end with one. The URLs of a request '
     'name the scheme, host, root, path and query that were asked for. Closing a request closes every file '
     'that belongs to it and calls each function it was given once, in order.',
     ['inputs'],
     'every environ of a WSGI server',
     'Tests build requests with a few usual environs; missing and malformed values, unusual paths and hosts are '
     'not tried.',
     ['verktyg/requests.py', 'verktyg/wsgi.py'],
     [('request', 'verktyg/requests.py: BaseRequest'),
      ('header accessors', 'verktyg/requests.py: CommonRequestDescriptorsMixin, UserAgentMixin'),
      ('addresses', 'verktyg/wsgi.py: get_current_url, get_host, get_path_info, get_script_name')])

prop('C24', 'Removing a class of headers removes exactly that class',
     'Whether a header describes the body or belongs to the connection depends on its name and not on its case. '
     'Removing such headers, from a list or a header collection, leaves all others and those that were allowed, in '
     'their order and in the same collection.',
     ['inputs'],
     'every list of headers, in any case, and every list of exceptions',
     'Tests remove headers from one list; other cases of names, repeated names and names that are almost the same '
     'are not tried.',
     ['verktyg/http/basic.py'],
     [('classes of headers', 'verktyg/http/basic.py: remove_entity_headers, remove_hop_by_hop_headers, is_entity_header')])

prop('C25', 'Names and addresses made from input are safe',
     'secure_filename makes of any text a plain name of ASCII letters, digits, dots, dashes and underscores that '
     'names a file in the folder it is joined to and no other, keeps names that are safe, and loses no ASCII '
     'letter or digit. redirect answers with the given code, an ASCII location that names the target, and a page '
     'whose one link is that location and in which the target adds no markup. append_slash_redirect leads to the '
     'same host, the same path with a slash at the end and the same query. The charset is added to text and XML '
     'types and to no other type.',
     ['inputs'],
     'every file name, every redirect target, every requested path and query, every media type',
     'Tests try a handful of names and one target; unusual characters, markup and absolute addresses hidden in '
     'paths are not tried.',
     ['verktyg/utils.py'],
     [('file names', 'verktyg/utils.py: secure_filename'),
      ('redirects', 'verktyg/utils.py: redirect, append_slash_redirect'),
      ('content types', 'verktyg/utils.py: get_content_type')])

prop('C27', 'Uploaded files are what was sent',
     'An uploaded file has the field name, file name, type and length it was sent with, or those of its stream '
     'where none were sent; what is read from it, line by line or at once, or saved to a path or a stream is '
     'exactly the content of its stream, and iterating over it ends. It is true if it has a file name. Making '
     'one does not touch the stream, everything it does not know is asked of the stream, and closing it closes '
     'the stream and does not fail.',
     ['inputs'],
     'every stream, name, type, length and set of headers',
     'Tests read one stream; names of streams, iteration, truth and streams that fail are not tried together.',
     ['verktyg/http/basic.py'],
     [('uploaded file', 'verktyg/http/basic.py: FileStorage')])

prop('C30', 'Dates in headers keep the moment',
     'A datetime, a time tuple and a timestamp of one moment are written as one and the same date in the format '
     'that HTTP prescribes, in UTC, whatever their time zone; reading a date in any of the forms that HTTP allows '
     'gives that moment as a naive datetime in UTC, so that a date that was written is read back. What is not a '
     'date, or names a day or a time that does not exist, is read as None and is never an error.',
     ['inputs'],
     'every moment from year 1000 to 9999, every time zone, every form, every string',
     'Tests write and read one date; time zones, two digit years, impossible days and malformed text are not '
     'tried.',
     ['verktyg/http/basic.py'],
     [('dates', 'verktyg/http/basic.py: parse_date, http_date, _dump_date')])

prop('C32', 'The test client asks what it is told to ask',
     'An environment made by the test builder gives a request exactly the method, path, query, headers, host and '
     'scheme that were asked for, and a body that reads as the data, the fields (every value, in order) and the '
     'files that were given; whatever was set last counts. Running an application returns its status, headers '
     'and whole body, what was written first, and closes it once. The client follows redirects only when asked, '
     'to where they lead and never in a loop, and sends the cookies it was given.',
     ['inputs', 'histories'],
     'every method, path, arguments, fields, files, headers and application',
     'The tests of the project rely on the client; it is itself tried on a handful of requests with one value per '
     'name.',
     ['verktyg/test.py'],
     [('builder', 'verktyg/test.py: EnvironBuilder, stream_encode_multipart'),
      ('running applications', 'verktyg/test.py: run_wsgi_app'),
      ('client', 'verktyg/test.py: Client')])

prop('C33', 'Errors carry their status',
     'There is exactly one error class for each error code, the most general one, with the standard name of the '
     'code; aborting with a code raises it with the description and response that were given, aborting with a '
     'response raises an error that carries the response, and an unknown code is a LookupError. An error has the '
     'description that was given or that of its class. A wrapped error is caught both as the HTTP error and as '
     'the wrapped exception.',
     ['inputs'],
     'every code, description, response, table of errors and pair of classes',
     'Tests raise a few codes; additional tables, given responses and wrapped classes are not tried together.',
     ['verktyg/exceptions.py'],
     [('errors', 'verktyg/exceptions.py: HTTPException'),
      ('table', 'verktyg/exceptions.py: Aborter, _find_exceptions, abort')])

prop('C34', 'Views are bound as they are declared',
     'A view gives one binding for each of its methods, GET if none were named, with its name, type, language, '
     'charset and quality; a binding calls the action of the view with exactly what it is given and returns '
     'what it returns. A class view has one binding for each HTTP method it defines. A JSON view answers with '
     'the value of its action as JSON, with no content for None, and passes responses on. The decorators bind '
     'the function and leave it as it is. What is found in a dispatcher is what was bound.',
     ['inputs'],
     'every view, set of methods, action, arguments and JSON value',
     'Tests bind one view of each kind; several methods, several views of one name and unusual values are not '
     'tried.',
     ['verktyg/views.py', 'verktyg/dispatch.py'],
     [('views', 'verktyg/views.py: View, ClassView, JsonView, expose, expose_json'),
      ('bindings', 'verktyg/dispatch.py: Binding, Dispatcher')])

prop('C35', 'Accept headers are kept as they were read and can be written again',
     'An Accept, Accept-Language or Accept-Charset header is read as its options in order, each with its value, a '
     'quality between nought and one and its parameters; it is written as them and what is written is read as the '
     'same options. A header that cannot be read is a ValueError. An offer is in the header exactly if it is '
     'acceptable, and looking it up gives how it matches.',
     ['inputs'],
     'every list of options, every text of a header',
     'Tests read a few well formed headers; writing, lookup and odd qualities are hardly tried.',
     ['verktyg/accept/_base.py', 'verktyg/accept/content_type.py', 'verktyg/accept/language.py',
      'verktyg/accept/charset.py'],
     [('options', 'verktyg/accept/_base.py: Range, Accept, split_accept_string')])
