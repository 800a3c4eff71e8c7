FEDB = ('47 operation templates over 47 supergraphs (each optional selection a symbolic choice), up to 2 entities per type; symbolic per run: nulls, list lengths 0..2, concrete types, object references, '
        'one-character text in up to 6 leaves, answer order of concurrent subgraph requests. ')
FEDO = 'Other supergraphs and operations, more than 2 entities per type, more symbolic choices per run than the stated budgets; the HTTP transport.'
EX = 'bin/router/src/executor/execution/plan.rs'; PL = 'bin/router/src/query_planner/planner'
prop('C01', 'The federated answer equals a direct evaluation over the combined data',
 'When no subgraph fails, the data a client receives for an operation equals what evaluating that operation directly over the combined data of all subgraphs would give: the same response keys, list lengths and order, nulls and values, with nothing missing, added or taken from another entity. This holds in whatever order concurrently queried subgraphs answer.',
 ['inputs', 'schedules', 'programs'], 'every operation from the templates, every data graph within the bounds (nulls, list lengths, types, shared entities), every answer order of concurrent fetches',
 'plan snapshots and a few end-to-end queries fix both operation and data; merging, entity deduplication and projection depend on nulls, list shapes, runtime types and answer order',
 [PL, EX, 'bin/router/src/executor/response', 'bin/router/src/executor/projection', 'bin/router/src/query_planner/ast/normalization'], [('query planner', PL), ('plan executor and entity merge', EX), ('response projection', 'bin/router/src/executor/projection/response.rs')],
 [run('h_fed', lo=0, hi=14, reach=['equal'], thorough=dict(nulls=3, lens=2, members=3, refs=2, delays=3)), run('h_fed', lo=15, hi=27, reach=['equal'], thorough=dict(nulls=3, lens=2, members=3, refs=2, delays=3)), run('h_fed', lo=28, hi=46, timeout=300, nulls=1, reach=['equal'], thorough=dict(nulls=2, lens=2, members=3, refs=2, delays=3))],
 FEDB, FEDO, ['fed'], FED_ASSUME, ['response body of an executed plan'], hook='subgraph executors supplied by the harness')
prop('C02', 'Subgraphs are asked only what they can answer, with keys and requirements met',
 'Every request sent to a subgraph is a valid operation that selects only fields and types that subgraph can resolve at that place, declares exactly the variables it uses, and is given a value for each. Every entity representation carries the type name, a resolvable key and all fields the selected fields require, with exactly the values that entity has (including those requested with particular arguments), and no representation is sent twice in one call.',
 ['inputs', 'programs', 'schedules'], 'every operation from the templates over supergraphs with keys, nested keys, @requires (chained, circular, with arguments, with fragments), @provides; every data graph within the bounds',
 'snapshot tests pin the plan text for single queries; whether the representation that is finally sent carries the right values depends on data, nulls and the combination of selected fields',
 [PL + '/fetch', EX, 'bin/router/src/executor/projection/request.rs', 'bin/router/src/executor/execution/rewrites.rs'], [('fetch graph and its optimisations', PL + '/fetch'), ('representation projection', 'bin/router/src/executor/projection/request.rs'), ('representation hashing', 'bin/router/src/executor/response/value.rs')],
 [run('h_fed', lo=0, hi=14, reach=['equal'], nullreq=2, thorough=dict(nulls=2, nullreq=3, refs=2, lens=2)), run('h_fed', lo=15, hi=22, reach=['equal'], thorough=dict(nulls=2, refs=2, lens=2))],
 FEDB, FEDO, ['fed'], FED_ASSUME, ['requests given to subgraph executors'], hook='subgraph executors supplied by the harness')
prop('C03', 'Fields on interfaces, unions and interface objects resolve for the runtime type',
 'For every runtime type an object may have, a selection through interfaces, unions, nested fragments or interface objects returns exactly the fields whose type conditions that type satisfies, under the response keys the client chose, with the correct __typename and with values of that very object, even where concrete types disagree on the type of a field or subgraphs know only some of the members.',
 ['inputs', 'programs'], 'every runtime type for each abstract position, every operation from the templates within the bounds', 'tests answer with one concrete type per query; the fetch rewrites, type-condition paths and aliasing of conflicting fields act differently per runtime type and per mix of types in one list',
 [PL + '/fetch/optimize/type_mismatches.rs', EX, 'bin/router/src/executor/execution/rewrites.rs', 'bin/router/src/executor/projection/plan.rs'], [('type mismatch aliasing', PL + '/fetch/optimize/type_mismatches.rs'), ('typename rewrites', 'bin/router/src/executor/execution/rewrites.rs')],
 [run('h_fed', lo=28, hi=32, reach=['equal'], members=3, nulls=1, lens=0, delays=0, refs=0, thorough=dict(members=4, nulls=2, lens=1)), run('h_fed', lo=33, hi=46, reach=['equal'], members=3, nulls=1, lens=0, delays=0, refs=1, thorough=dict(members=4, nulls=2, lens=1))],
 FEDB, FEDO, ['fed'], FED_ASSUME, ['response body of an executed plan'], hook='subgraph executors supplied by the harness')
FF = dict(nulls=1, lens=1, members=1, refs=0, nullreq=0, delays=0)
FT = dict(faults=2, nulls=2, lens=1, members=2, refs=1, delays=1)
prop('C04', 'A failing subgraph loses only its own part of the answer, and is reported',
 'When subgraph requests fail (no response, an HTTP error status, null data with errors, a null entity or field with an error path, errors beside data), the client still receives everything the other requests served, what was not served is null (propagated to the nearest nullable parent), and no value is made up or moved to another object. Every failure is reported in errors with its message, the name of the subgraph and, where the subgraph gave a position, the path in the client response of the object concerned; nothing is reported that did not happen.',
 ['inputs', 'fault_sequences', 'schedules', 'programs'], 'every choice of which subgraph request fails and how (up to the stated number of failing requests), every data graph within the bounds, every answer order',
 'end-to-end tests let a single fixed request fail; which later fetches run, which entities are dropped and where errors are attributed depends on which fetch of the plan fails, on entity deduplication and on list positions',
 [EX, 'bin/router/src/executor/response', 'bin/router/src/executor/projection/response.rs', 'bin/router/src/executor/execution'], [('plan executor', EX), ('error normalisation and paths', 'bin/router/src/executor/response/graphql_error.rs'), ('null propagation', 'bin/router/src/executor/projection/response.rs')],
 [run('h_fed_faults', lo=0, hi=14, reach=['failed'], faults=1, timeout=300, thorough=FT, **FF), run('h_fed_faults', lo=15, hi=32, reach=['failed'], faults=1, timeout=300, thorough=FT, **FF), run('h_fed_faults', lo=35, hi=46, reach=['failed'], faults=1, timeout=300, thorough=FT, **FF)],
 '45 operation templates over 44 supergraphs (each optional selection a symbolic choice); one failing request per run in the quick check, two in the thorough one, 4 kinds of failure; data graph as for C01 with one symbolic null, list length and type each. ',
 'Interface-object supergraphs (cases 33, 34); where a failed object is also reached over another route (entity deduplication), only weaker claims are checked: nothing invented, failure reported; HTTP transport, timeouts, retries.', ['fed'], FED_ASSUME, ['response body and errors of an executed plan'], hook='subgraph executors supplied by the harness')

CB = dict(nulls=1, lens=0, members=1, refs=0, nullreq=0, delays=0)
prop('C05', 'Skip and include decide per field, in the answer and in subgraph requests',
 'A field or fragment excluded by @skip or @include (through a literal, a variable or a variable\'s default, alone, combined, nested or repeated on merged selections) is absent from the answer, and one that is included by any of its occurrences is present with its value, whatever subgraph provides it. Conditions never change the value of other fields, and subgraphs are never sent an entity call whose representations lack a resolvable key or a requirement.',
 ['inputs', 'programs'], 'every combination of variable values (and of leaving defaulted variables out), every operation from 13 templates in which conditions sit on fields, fragments, merged selections, entity fetches and requirements; every data graph within the bounds',
 'tests fix one operation and one or two variable values; which fetch carries the condition, and how merged conditional and unconditional selections combine, differs for each combination',
 ['bin/router/src/query_planner/planner', EX, 'bin/router/src/executor/projection/plan.rs', 'bin/router/src/query_planner/ast/normalization'], [('condition nodes of the plan', 'bin/router/src/query_planner/planner/plan_nodes.rs'), ('conditions of the projection', 'bin/router/src/executor/projection/plan.rs')],
 [run('h_fed', lo=47, hi=59, reach=['equal'], thorough=dict(nulls=2, lens=1, members=2, refs=1, delays=1), **CB)],
 '13 operation templates over 11 supergraphs, two Boolean variables (given, or left to their default), each optional selection a symbolic choice; one symbolic null and one symbolic type per run. ', FEDO, ['fed'], FED_ASSUME, ['response body of an executed plan', 'requests given to subgraph executors'], hook='subgraph executors supplied by the harness')
prop('C06', 'Mutation root fields run one after another in document order',
 'The root fields of a mutation are executed exactly once each and in document order, also where neighbours belong to different subgraphs and where some are excluded by @skip or @include. The answer equals the direct evaluation, including entity fields fetched from other subgraphs below a mutation field.',
 ['inputs', 'programs', 'schedules'], 'every operation from 3 templates (each root field optional), every variable value', 'snapshot tests pin the plan of a few mutations; order after merging of same-subgraph neighbours depends on the exact sequence of fields',
 [PL, EX], [('mutation ordering in the fetch graph', PL + '/fetch'), ('plan building', PL)],
 [run('h_fed', lo=60, hi=62, reach=['equal', 'mutation'], thorough=dict(nulls=2, lens=1, members=2, refs=1, delays=1), **CB)],
 'mutations of up to 6 root fields over 2 subgraphs, each optional. ', FEDO + ' Failing mutation fields.', ['fed'], FED_ASSUME, ['order in which subgraph executors receive root fields'], hook='subgraph executors supplied by the harness')
prop('C07', 'Progressive override routes each request to the subgraph its labels select',
 'For every request, a field with a labelled @override is resolved by the overriding subgraph exactly when its label is active (the percentage drawn for the request is below the label\'s percentage, or the custom label is in the request\'s active set) and by the overridden subgraph otherwise; fields overridden without a label always come from the overriding subgraph. The answer is the same on either route.',
 ['inputs', 'programs', 'configurations'], 'every drawn percentage (one symbolic integer below 100 percent in the fixed-point scale), every set of active labels, every operation from 5 templates, every data graph within the bounds',
 'tests use percent(0)/percent(100)-like settings and single flags; boundaries of the percentage and combinations of several labels on one operation are not enumerable',
 [PL, 'bin/router/src/query_planner/graph', 'bin/router/src/query_planner/state'], [('override conditions on graph edges', 'bin/router/src/query_planner/graph'), ('percentage check', PL + '/mod.rs')],
 [run('h_fed', lo=63, hi=67, reach=['equal'], thorough=dict(nulls=2, lens=1, members=2, refs=1, delays=1), **CB)],
 '5 operation templates over 4 supergraphs with percentage and flag labels; drawn percentage fully symbolic. ', FEDO + ' How labels are evaluated from configuration (expressions).', ['fed'], FED_ASSUME, ['requests given to subgraph executors'], hook='subgraph executors supplied by the harness')
