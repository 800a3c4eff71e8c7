HD = 'bin/router/src/executor/headers'
prop('C08', 'A client receives data only for fields it is authorized for',
 'A field, object type, interface or enum/scalar-typed field guarded by @authenticated or @requiresScopes yields data only if the request\'s authentication and scopes satisfy every directive that applies to it, through whatever interface, union, fragment, alias or nesting it is selected; otherwise it is null (propagated to the nearest nullable parent), reported as unauthorized, and neither it nor anything below it is requested from a subgraph. Everything the client may see is answered as if the unauthorized parts had not been selected, and in reject mode an operation with any unauthorized field is refused without executing anything.',
 ['inputs', 'programs', 'configurations'], 'every set of granted scopes out of those used in the schema, authenticated or not, filter and reject mode, every operation from 8 templates (each optional selection a choice), every data graph within the bounds',
 'tests pair a few token contents with fixed operations; which parts of an operation survive depends on the combination of scopes, on abstract types and on how selections merge',
 ['bin/router/src/pipeline/authorization', 'bin/router/src/pipeline/nullify', 'bin/router/src/query_planner/state'], [('authorization metadata and enforcement', 'bin/router/src/pipeline/authorization'), ('removal of unauthorized selections', 'bin/router/src/pipeline/nullify')],
 [run('h_auth', lo=0, hi=7, timeout=300, nulls=1, lens=0, members=1, refs=0, nullreq=0, delays=0, syms=1, reach=['rejected', 'filtered', 'allowed'], thorough=dict(nulls=2, lens=1, members=2, refs=1, delays=1))],
 '8 operation templates over one supergraph with guarded fields, object types, interfaces, scalars and enums; every subset of the scopes; data graph as for C01 with one symbolic null and one symbolic type. ',
 'How a token becomes an authentication and a scope list (JWT handling); other supergraphs.', ['auth'], FED_ASSUME, ['response body and errors', 'requests given to subgraph executors'], hook='subgraph executors supplied by the harness')
prop('C09', 'CORS response headers follow the first policy that matches the origin',
 'A request with an Origin gets exactly the CORS headers of the first configured policy whose origins or patterns match it (with allow_any_origin: the global settings), each setting inherited from the global configuration as documented when the policy does not give it; in particular a policy that says allow_credentials: false never allows credentials. An origin no policy matches is told that it is not allowed and gets no other permission, a request without Origin gets no CORS headers, and preflight requests are answered early and alone receive the extra preflight headers.',
 ['inputs', 'configurations'], 'every origin of the stated forms (symbolic bytes), every combination of two settings over the global configuration and a policy, two policies with lists or patterns, preflight or not',
 'tests check single settings with one origin; inheritance and first-match order have to hold for every combination of settings, origins and request hints',
 ['bin/router/src/pipeline/cors.rs', 'bin/router/src/config/cors.rs'], [('policy compilation and application', 'bin/router/src/pipeline/cors.rs')],
 [run('h_cors', settings=1, reach=['allowed', 'refused'], thorough=dict(settings=2, n=3))],
 'origins: https:// and 2 symbolic characters, or one symbolic character and a fixed rest; two policies (a list, a pattern, both, none; then a list); one of six groups of settings varies per run (two in the thorough check). ',
 'Other regular expressions, longer origins.', ['http'], [], ['headers set on the response'])
prop('C10', 'No simple cross-site request is executed without a required header',
 'With CSRF prevention enabled and required headers configured, a request that a browser would send without a preflight (no Content-Type, or one whose essence is text/plain, multipart/form-data or application/x-www-form-urlencoded in any spelling and with any parameters) is refused unless it carries one of the required headers, in any letter case. Requests with another content type, with a required header, or with prevention off are never refused for this reason.',
 ['inputs', 'configurations'], 'every content type that differs from one of five base texts in a window of symbolic bytes, with up to two further bytes; every presence of four headers; every configuration of four',
 'tests try a handful of content types; the check must hold for every spelling a browser accepts',
 ['bin/router/src/pipeline/csrf_prevention.rs'], [('preflight test and header test', 'bin/router/src/pipeline/csrf_prevention.rs')],
 [run('h_csrf', reach=['passed', 'refused'], thorough=dict(window=5))],
 'content type: absent, or one of 5 base texts with 3 adjacent symbolic bytes (5 in the thorough check) at every multiple of that width, and 0..2 symbolic bytes appended. ',
 'Several Content-Type fields.', ['http'], ['values that are not visible ASCII, or only start like a simple type, may be treated either way'], ['accept or refuse'])
prop('C11', 'Subgraph request headers are what the configured rules produce, in order',
 'The client headers a subgraph receives are exactly those produced by applying the rules under all and then the rules of that subgraph, top to bottom: propagate (by name or pattern, less exclude, renamed or with a default when nothing matched; adding to what is there), insert (replacing, except set-cookie style headers, which are added) and remove (less exclude), names in any letter case; rules of other subgraphs have no effect. Hop-by-hop headers never reach a subgraph, whatever rule matches, renames to or inserts them.',
 ['inputs', 'configurations'], 'every pair of rules out of a catalogue of 20 in every scope, every presence and value of the client headers they can match',
 'tests apply single rules or one fixed list; precedence, renaming, defaults and removal interact',
 [HD + '/request.rs', HD + '/compile.rs', HD + '/sanitizer.rs', 'bin/router/src/config/headers.rs'], [('rule compilation', HD + '/compile.rs'), ('application to subgraph requests', HD + '/request.rs')],
 [run('h_req_headers', rules=2, reach=['headers'], thorough=dict(rules=2, scopes=1)), run('h_req_headers', rules=3, tier='thorough', timeout=3000)],
 'configurations of 2 rules (3 in the thorough check) out of 20, over three scopes; client headers x-a, x-b (up to two fields), set-cookie, connection, te, accept with one symbolic character as value. ',
 'Inserted expressions (VRL programs); a named header sent in several fields (only its first value is propagated, which the documentation leaves open); exclude combined with named.', ['http'], [], ['headers added to a subgraph request'])
prop('C12', 'Client response headers are what the configured rules make of the answers',
 'The headers added to the client response are those produced by applying, for every subgraph response in the order received, the rules under all and then those of that subgraph: propagated and inserted values merge by the algorithm of the rule (first keeps, last replaces, append joins with a comma; set-cookie style headers always stay separate fields), remove drops what was collected, and a default is used only if no subgraph provides the header. Hop-by-hop headers and content-type are never taken from a subgraph or a rule.',
 ['inputs', 'configurations', 'histories'], 'every pair of rules out of a catalogue of 20 with every algorithm, one or two subgraph responses in either order, every presence and value of the headers they can match',
 'tests cover one algorithm at a time with fixed answers; the order of answers, defaults and several rules on one header interact',
 [HD + '/response.rs', HD + '/compile.rs', HD + '/sanitizer.rs', 'bin/router/src/config/headers.rs'], [('aggregation of response headers', HD + '/response.rs'), ('rule compilation', HD + '/compile.rs')],
 [run('h_res_headers', rules=2, reach=['headers'], thorough=dict(scopes=1))],
 'configurations of 2 rules out of 20 with 3 algorithms each, over three scopes; up to two subgraph responses with headers x-a, x-b, set-cookie (twice), connection, te and one symbolic character as value. ',
 'Inserted expressions (VRL programs); several fields of the same joinable header in one answer.', ['http'], [], ['headers of the client response'])
prop('C13', 'The merged Cache-Control is never more permissive than any subgraph allows',
 'When cache-control is propagated, the client sees one value that is at most as permissive as each subgraph\'s: no-store, no-cache or private of any subgraph (in any letter case, beside any other directive) forbids caching, max-age is the smallest given, public remains only if every subgraph said so, must-revalidate holds if any said so. Mutations and answers with errors are marked as not to be stored, and without any cache-control from a subgraph none appears.',
 ['inputs', 'histories'], 'every combination of up to two subgraph values of up to two directives each, with symbolic ages, malformed and unknown directives, and subgraphs that stay silent',
 'tests merge hand-written pairs; combinations with unknown or malformed directives decide whether private data is cached',
 [HD + '/cache_control.rs', EX], [('parsing and merging', HD + '/cache_control.rs')],
 [run('h_cache_control', reach=['forced', 'poisoned', 'merged'], thorough=dict(parts2=2))],
 'up to 2 values, the first with up to 2 directives, the second with one (two in the thorough check), out of 11 kinds; max-age of two symbolic digits. ',
 'More than two values; the decision whether an answer is a mutation or has errors.', ['http'], [], ['Cache-Control of the client response'])
