GT = 'lib/graphql-tools/src'
import os
prop('C14', 'GraphQL text is read and printed as the specification gives it a meaning',
 'The parser accepts the numbers, strings (with their escapes) and block strings of the GraphQL grammar with exactly the value the specification gives them, refuses other spellings, and never crashes on any text. An operation, fragment or value that the router prints again (pretty, minified, or as part of a subgraph request) parses back to the same operation, fragment or value.',
 ['inputs'], 'every number-like text, string body and block string up to the bound; every string value up to the bound through three printers; every document from the piece grammar through three printers',
 'tests parse a list of literals; escapes, block string indentation and quoting are wrong only for particular characters in particular positions',
 [GT + '/parser'], [('tokenizer and parser', GT + '/parser'), ('printing', GT + '/parser/format.rs'), ('minified printing', GT + '/parser/query/minify.rs'), ('printing of planner values', 'bin/router/src/query_planner/ast/value.rs')],
 [run('h_number', n=4, reach=[], thorough=dict(n=5)), run('h_string', n=4, reach=['string', 'rejected'], thorough=dict(n=5)), run('h_string_u'), run('h_block', n=5, reach=['string'], thorough=dict(n=7)),
  run('h_print_string', n=3, reach=['printed']), run('h_print_string', n=4, alphabet=1, reach=['printed'], thorough=dict(n=5)), run('h_print_document', reach=['printed']), run('h_lang_parse_total', n=2, reach=['rejected'], thorough=dict(n=3))],
 'number-like texts of up to 4 characters, string bodies of up to 4 bytes, \\u escapes with 4 symbolic digits, block strings of up to 5 characters out of 7, printed strings of 3 arbitrary ASCII or 4 delicate characters, any text of 2 bytes, 1500 documents. ',
 'Longer literals, non-ASCII text in literals, surrogate pairs in escapes (refused), numbers beyond the range of a double.', ['lang'], ['exponents without a sign that start with 0 may be refused, as a test of the repository demands'], ['result of the parser', 'printed text'])
prop('C15', 'Text is written into JSON so that it decodes to the same text',
 'Any text that the router writes as a JSON string (response data, names, error messages, variables and hashes for subgraphs) is a valid JSON string that decodes to exactly that text, whatever characters it holds.',
 ['inputs'], 'every UTF-8 text of up to 3 bytes', 'tests write a few strings; which characters need an escape and at which offset a vectorised scan looks at them depends on the text',
 ['bin/router/src/executor/json_writer.rs'], [('escaping', 'bin/router/src/executor/json_writer.rs')],
 [run('h_json_escape', n=1), run('h_json_escape', n=2, thorough=dict(n=4)), run('h_json_escape', n=3)],
 'texts of 1 to 3 bytes, all values. ', 'Longer texts.', ['lang'], [], ['bytes written'])
prop('C16', 'Operations beyond a configured limit are refused and others are not',
 'An operation is refused exactly if it exceeds a configured limit: more tokens than max_tokens, deeper than max_depth (fragments resolved, introspection counted or not as configured), more aliases than max_aliases, or more directives than max_directives, where whatever a fragment contains counts each time it is spread.',
 ['inputs', 'configurations'], 'every limit below 16 (64 for tokens), every option of the rules, every document from two selections, two fragments and a second operation out of the stated pieces',
 'tests put single documents around one limit; fragments spread in several places, nested and with directives of their own combine',
 ['bin/router/src/pipeline/validation', GT + '/parser'], [('limits', 'bin/router/src/pipeline/validation'), ('token limit', GT + '/parser')],
 [run('h_limits', timeout=300, reach=['refused', 'accepted'], thorough=dict(full=1)), run('h_token_limit', reach=['refused', 'accepted'])],
 '13 x 4 selections, 5 x 3 fragment bodies, 3 operations, with and without a second operation (thorough: 13 x 13, directives on definitions); limit a symbolic number below 16; 8 texts for the token limit with a symbolic limit below 64. ',
 'Larger documents; the configuration file.', ['lang', 'valid'], ['a fragment spread may count as a level of its own', 'directives on fragment definitions may count or not'], ['refused or accepted'])
prop('C17', 'A variable value is accepted exactly if it is a value of the variable type',
 'A request is refused if a value for a declared variable (or its absence) does not conform to the declared type under the GraphQL input coercion rules, for lists, non-null, scalars, enums and their nesting, and accepted if it does. The operation then runs with exactly the declared variables that have a value: the one given, null included, or else the default.',
 ['inputs'], 'every pair of 14 types and 20 values with 7 defaults, integers with a symbolic digit around the limits of 32 bits, other and undeclared variables present or not',
 'tests check types one by one; nullability, list coercion, defaults and number ranges combine',
 ['bin/router/src/executor/variables', 'bin/router/src/pipeline/coerce_variables.rs'], [('coercion', 'bin/router/src/executor/variables')],
 [run('h_variables', reach=['refused', 'accepted'])],
 '14 types, 7 defaults, 20 values, with one symbolic digit each. ', 'Values of input objects beyond their kind; longer lists.', ['valid'], ['a list of one item may be given as the item'], ['accept or refuse', 'values the operation runs with'])
prop('C18', 'Operations are validated as the GraphQL specification requires',
 'An operation is refused by validation exactly if it violates a rule of the GraphQL specification: fields, arguments and directives that exist, leaf selections, values and variables of fitting types, fragments that are defined, used, acyclic and possible where they are spread, fields that can be merged, unique names, and single-root subscriptions.',
 ['inputs', 'programs'], 'every operation of eight families (each built from optional pieces), compared with an independent validator written from the specification',
 'tests have a document per rule; the rules interact (a fragment in a fragment on an interface, merging below two parents, a variable used through two operations)',
 [GT + '/validation'], [('validation rules', GT + '/validation/rules'), ('traversal', GT + '/ast/operation_visitor.rs')],
 [run('h_validate', family=f, timeout=300, reach=['valid', 'invalid']) for f in range(9)],
 '300 to 7000 operations per family over one schema with objects, interfaces (nested), unions, enums, input objects (recursive), custom scalars and directives; Int literals with a symbolic last digit around the limits. ',
 'Other schemas, operations of other shapes.', ['lang', 'valid'], ['rules of the specification of October 2021 with required-argument checks; custom scalars accept any literal'], ['accept or refuse'])
