"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=(), level='exploration', claimed=True, reason=None):
    assert len(title) <= 80, title
    P.append(dict(
        row=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe), hook_needed=None)),
        claimed=claimed, reason=reason, technique=technique, note=note, level=level))


T = 'ocelot/transformations/'
L = T + 'locations/'
C = T + 'cutoff/'
PZ = T + 'parameterization/'

WORLD = 'every database of activities (any mix of transforming activities, markets and market groups, areas, signs, classifications, production volumes and links) which is valid input of the cutoff system model'
REFNOTE = ('Every generated database goes through the real, complete cutoff model and every observed value is compared with an independent reference model written from the '
           'documentation (bit-mask geometry, own allocation and linking code). Trusts that reference and explores a finite, seeded sample of databases.')

prop('C01', 'Cutoff results are single-product, normalised activities, none lost or invented',
     'After a cutoff model run, the result has exactly one activity for each activity and allocatable product with non-zero amount in the input (split, renamed or burden-free activities included), '
     'never a duplicate and never one too few, except rest-of-world and whitelisted global activities the model documents as dropped. '
     'Each has exactly one reference product and no remaining byproducts, the amount of that product is +1 or, for waste and other negative products, -1, and its unit is unchanged. '
     'All its environmental exchanges are the ones of the activity it came from, times one common factor given by allocation and normalisation.',
     ['inputs'], WORLD,
     'The tests check single steps on a handful of two- or three-activity fixtures; no test runs the complete system model on data with all allocation methods side by side.',
     ['ocelot/configuration.py', C + 'allocation.py', C + 'utils.py', T + 'cleanup.py', T + 'utils.py'],
     [('allocation of multioutput activities', C + 'allocation.py'), ('normalisation of reference products', T + 'utils.py'), ('order of the steps', 'ocelot/configuration.py')],
     'online comparison of complete model runs with a reference model', REFNOTE, ['result list of a system model run'])

prop('C02', 'Every input in a cutoff result is linked to one activity making that product',
     'After a cutoff model run, every input from the technosphere of every activity names exactly one activity of the result, that activity exists once, and its reference product is the product the input asks for '
     '(including recycled content products, wastes and hard-linked inputs). '
     'Inputs without any possible supplier are dropped, never left dangling and never attached to the producer of another product.',
     ['inputs'], WORLD,
     'Dangling or misdirected links depend on the joint order of deletion, renaming and linking steps over a whole database; tests link small sets of datasets with one step each.',
     [L + 'linking.py', L + 'markets.py', L + 'rest_of_world.py', C + 'wastes.py', 'ocelot/configuration.py'],
     [('linking of consumers, markets, groups and recycled content', L + 'linking.py'), ('deletion of unused global datasets', L + 'markets.py')],
     'trace check of link closure over complete model runs', REFNOTE, ['codes of activities and inputs in the result'])

prop('C03', 'Dividing an input between suppliers keeps its total and follows production',
     'When an input is divided between several supplying markets or market groups, each supplier gets the share of its production volume in their sum, so that the parts add up to the original amount with the same sign and unit; '
     'an input with a single supplier is passed on whole, even if that supplier has no production. '
     'Each part keeps the kind of uncertainty distribution of the original, scaled by the same share. '
     'Suppliers without production get nothing when there are others with production; inputs all of whose suppliers have no production are dropped.',
     ['inputs'], 'all consumers, numbers of suppliers, production volumes (including zero), amounts of either sign and uncertainty distributions',
     'Tests use two suppliers with round numbers and no uncertainty; conservation must hold for any number of suppliers, magnitudes and distributions.',
     [L + 'linking.py', L + 'markets.py', T + 'uncertainty/__init__.py'],
     [('division between suppliers', L + 'markets.py'), ('scaling of exchanges with their distributions', T + 'uncertainty/__init__.py')],
     'conservation monitor on real linking runs', 'Monitors every divided input of directed linking runs and complete model runs. ' + REFNOTE)

prop('C04', 'Consumers get the largest suppliers inside their area, else the smallest around',
     'An unlinked input is supplied by those markets and market groups of its product which lie completely inside the area of the consumer, chosen greedily from the largest to the smallest (by number of areas, then name) while removing the areas of '
     'named regions already chosen, and preferring the market where a market and a group have the same location name; if there are none, by the single smallest one which contains the whole area of the consumer. '
     'The rest of the world is the complement of the named regions of its own activity (for consumers) or of the markets of the product (for suppliers), and an empty area neither contains nor is contained. '
     'Inputs which already have a link are never touched.',
     ['inputs'], 'all consumer areas, all sets of market and market group areas known to the topology, rest of the world on either side',
     'The topology has hundreds of overlapping areas; tests use a few country names and stubbed topologies.',
     [L + 'linking.py', L + '_topology.py'],
     [('choice of suppliers', L + 'linking.py'), ('containment tests', L + '_topology.py')],
     'comparison of real linking runs with a bit-mask geometry oracle', 'Trusts the face table of constructive_geometries and a second, bit-mask implementation of containment. Explores a seeded sample of area combinations.')

prop('C05', 'Markets are supplied by exactly the producers inside their area',
     'The suppliers of a market are exactly those transforming activities with the same reference product whose area lies completely inside the area of the market, regardless of technology and production volume (markets of products with a recycled content supply get that supply instead). '
     'The rest-of-world area of a producer is the complement of the named regions with the same activity name and product, that of a market the complement of the other markets of the product. '
     'Overlapping markets of one product, or overlapping producers of one technology, are refused with an error instead of being counted twice.',
     ['inputs'], 'all sets of producer and market areas known to the topology, including rest of the world and global ones',
     'Tests sample four or five area combinations out of all sets of hundreds of areas.',
     [L + 'markets.py', L + 'validation.py', L + '_topology.py'],
     [('apportioning of suppliers', L + 'markets.py'), ('overlap checks', L + 'validation.py')],
     'comparison of real linking runs with a bit-mask geometry oracle', 'Trusts the face table of constructive_geometries and a second, bit-mask implementation of containment. Explores a seeded sample of area combinations.')

prop('C06', 'Market mixes add up to the output of the market, by production volume',
     'The inputs a market receives from its suppliers have shares equal to the production volumes (net of hard links) of these suppliers and add up to the amount of the reference product, sign included. '
     'A market with a single supplier takes everything from it, even if that supplier has no production; suppliers without production get no share otherwise; markets without suppliers get no such inputs at all. '
     'The inputs of a mix carry no uncertainty.',
     ['inputs'], 'all markets, numbers of suppliers, production volumes including zero, product amounts of either sign',
     'Tests use fixtures with two or three suppliers; sums and shares must hold for every number and magnitude.',
     [L + 'markets.py'], [('division between suppliers', L + 'markets.py')],
     'conservation monitor on real market linking runs', 'Monitors the mix of every market in directed runs and complete model runs. ' + REFNOTE)

prop('C07', 'Production volumes are accounted for exactly once',
     'Allocation gives each product its own production volume. '
     'An activity can supply markets with its production volume minus the amounts consumed from it through hard links (amount per unit of output times the production volume of the consumer), never less than zero; '
     'the production volume of a market is the sum of those of its suppliers minus hard links to that market, never less than zero. '
     'Each hard link is subtracted exactly once, from the activity it points to.',
     ['inputs'], WORLD + ', in particular all sets of hard links between its activities',
     'Tests check one or two links in isolation, not a database in which volumes are subtracted, relabelled and summed by six different steps.',
     [T + 'activity_links.py', L + 'markets.py', T + 'production_volumes.py'],
     [('adding and subtracting hard-linked volumes', T + 'activity_links.py'), ('market volumes', L + 'markets.py')],
     'conservation monitor over model runs', REFNOTE)

prop('C08', 'Market groups mix the markets and groups inside them, without double counting',
     'A market group is supplied by the markets and other market groups of its product inside its area, chosen greedily from the largest to the smallest while removing areas already taken, never by itself; a market wins over a group of the same location name. '
     'Its production volume is the sum of those of its suppliers, computed from the smallest group up so that groups inside groups count, and its inputs are shares by production volume which add up to its output. '
     'The rest-of-world market of the product takes part in a group which contains its area; groups without suppliers stay empty and groups are never in the rest of the world.',
     ['inputs'], 'all sets of market and market group areas (nested, overlapping, covering the world), volumes including zero',
     'Nested overlapping groups over a real topology; tests use one small European example.',
     [L + 'market_groups.py', L + 'markets.py', L + '_topology.py'],
     [('choice of suppliers of groups', L + 'market_groups.py'), ('volumes of groups in order of size', L + 'markets.py')],
     'comparison of real linking runs with a bit-mask geometry oracle', REFNOTE)

prop('C09', 'The rest of the world replaces global activities exactly where regions exist',
     'A global activity becomes rest-of-world exactly if there are region-specific activities with the same name and the same non-zero products (market groups excepted), and its production volume becomes the global one minus those of the regions (before hard links), never below zero. '
     'A single global activity stays global; two global ones in a group are refused. '
     'Rest-of-world activities without production are removed from the result only where regional alternatives exist and nothing uses them.',
     ['inputs'], WORLD, 'Tests use two or three datasets and one product; grouping, volumes, removal and later linking interact over the whole database.',
     [L + 'rest_of_world.py', L + 'markets.py', L + 'validation.py'],
     [('relabelling', L + 'rest_of_world.py'), ('removal of unused rest-of-world activities', L + 'markets.py')],
     'comparison of complete model runs with a reference model', REFNOTE)

prop('C10', 'Geography answers are set algebra, whatever was asked before',
     'Containment, overlap, intersection, ordering by size and the rest of the world agree with set algebra on the areas: the rest of the world is the complement of the given regions, containment is a partial order in which the globe contains everything and an empty area nothing, '
     'subtracted regions are removed from the containing area first, and overlap is true exactly if some area is shared. '
     'The same question gets the same answer whatever other questions were asked before and in whatever order locations are listed.',
     ['inputs', 'histories'], 'all sequences of questions about all known locations, subtracted regions and resolved rest-of-world areas',
     'Answers are cached by arguments, so correctness depends on the history of calls; tests ask each question once on selected locations.',
     [L + '_topology.py'], [('topology with cached answers', L + '_topology.py')],
     'history monitor against a bit-mask geometry oracle', 'Long random histories of questions, each answer compared with integer bit masks built from the same face table. Trusts that table.')

prop('C11', 'Economic allocation divides every burden in full, by value',
     'Economic allocation yields one activity per allocatable product with non-zero amount; each gets every other exchange times the share of the value of the product (price times amount) in the total value, with uncertainty scaled alike, so that the shares add up to one and no burden is lost or counted twice. '
     'Among the products which have a true value, their joint share is divided by true value times amount instead of revenue; the shares of other products are unaffected by that. '
     'Undefined shares (no revenue at all, no true value at all, a missing or negative price, a negative amount) are refused with an error.',
     ['inputs'], 'all numbers of products, prices (including zero), amounts, true values and exchanges with any distribution',
     'Tests check two or three products with fixed prices.',
     [C + 'economic.py', C + 'utils.py'], [('allocation factors', C + 'economic.py'), ('application of factors', C + 'utils.py')],
     'conservation monitor on real allocation runs', 'Each allocated activity is compared burden by burden with an independent computation, and burdens are summed over the products.')

prop('C12', 'Each activity gets exactly the allocation method its kind calls for',
     'Which allocation is used depends only on the kind of the activity (market, constrained market, market group or transforming), the number and sign of its reference products, and classification of its products, and on whether a market has a conditional exchange, following the documented decision tree, '
     'and never on the order of exchanges or the size of amounts (zero amounts do not count as products). '
     'Every activity of the database goes through exactly the chosen method, once, and activities without allocation are passed on complete.',
     ['inputs'], 'all combinations of activity kinds, reference products, byproducts and classifications, in any order of exchanges',
     'Tests cover each branch once with a minimal dataset.',
     [C + 'allocation.py', C + 'validation.py'], [('choice of method', C + 'allocation.py')],
     'comparison of real decisions with an independent decision tree', 'The real choice is recorded for many thousand generated activities; complete allocations are compared with a reference. Trusts the re-stated decision tree.')

prop('C13', 'Waste treatment keeps the burdens; its useful products come for free',
     'Treating a waste gives one activity with the waste as its (negative) product and all burdens, plus one burden-free activity for each allocatable useful byproduct; '
     'treating a recyclable turns the recyclable into an (positive) input and divides all burdens, this input included, economically between the useful byproducts. '
     'No burden disappears or is counted twice, and uncertainties are unchanged apart from common scaling; activities which do not consume their reference product, or recyclings which make nothing useful, are refused.',
     ['inputs'], 'all treatment activities with any number of useful byproducts, classifications, amounts and distributions',
     'Tests use a single example of either kind.',
     [C + 'wastes.py'], [('waste treatment and recycling allocation', C + 'wastes.py')],
     'comparison of real allocation runs with a reference', 'Each resulting activity is compared exchange by exchange with an independent implementation.')

prop('C14', 'Joint production is divided by evaluating the formulas for each product',
     'An activity with several reference products yields, for each non-zero reference product, the inputs and emissions its formulas give when the amounts of all other reference products are zero, normalised to one unit; amounts without formula stay as they are. '
     'If there are allocatable byproducts, each of these activities is then allocated economically and the parts for the same byproduct are added up; if all reference products are wastes or recyclables, each is treated like a waste treatment or recycling of its own. '
     'No amount is left from before the evaluation.',
     ['inputs'], 'all systems of formulas over product amounts, parameters and properties in joint production activities',
     'Tests use one small activity per mode.',
     [C + 'combined.py', PZ + 'recalculation.py'], [('splitting joint production', C + 'combined.py'), ('evaluation', PZ + 'recalculation.py')],
     'comparison of real allocation runs with a reference evaluation', 'Formulas are generated linear so that the reference can evaluate them independently; non-linear formulas are covered by C19.')

prop('C15', 'Recyclables are cut off: free for users, no credit for producers',
     'In cutoff results, each recyclable byproduct leaves its activity without taking any burden along: consumers of it get it from one burden-free global recycled-content activity per product, with exactly the amount and sign of their input. '
     'A waste or recyclable output becomes an input of its disposal or use with the opposite sign, same absolute amount and mirrored uncertainty. '
     'Recycled content activities have no inputs or emissions and supply the markets of the recyclable.',
     ['inputs'], WORLD, 'Tests check the single steps (flipping, creating, renaming) but not that amounts, links and names fit together after the whole run.',
     [C + 'wastes.py', C + 'markets.py', L + 'linking.py', L + 'markets.py'],
     [('recycled content activities and flipping', C + 'wastes.py'), ('market signs', C + 'markets.py')],
     'trace check over complete model runs', REFNOTE)

prop('C16', 'Scaling an exchange scales amount and uncertainty together',
     'Whenever the model scales an exchange, by whatever factor and through whatever step (allocation, normalisation, division), the amount is multiplied by the factor, location parameters of its distribution (mean, most likely value, minimum, maximum) by the factor, '
     'variances of normal distributions by its square, and lognormal variances stay the same; minimum and maximum swap for negative factors. '
     'Two scalings in a row equal one by the product of the factors, and scaling never changes the type of distribution, except that a factor of zero removes it.',
     ['inputs'], 'all distributions, amounts of either sign and zero, factors of either sign and zero',
     'Tests check each distribution with one factor.',
     [T + 'uncertainty/__init__.py', T + 'uncertainty/distributions.py', T + 'utils.py'],
     [('scaling', T + 'uncertainty/distributions.py')],
     'algebraic monitor on real scaling calls', 'Each scaled exchange is compared with the analytic transformation of the random variable, after one and after two scalings.')

prop('C32', 'Hard links lead to the named producer, whatever geography says',
     'An input which names its supplying activity is linked to exactly that activity (the part making the wanted product, if the activity was split by allocation), independent of locations and production volumes, with amount and sign unchanged. '
     'Links from datasets inherited from a parent, links to co-products and wastes, and losses of a market in itself are honoured alike. '
     'A link to an activity which does not exist, or to one which does not make the product, is refused with an error.',
     ['inputs'], WORLD + ', in particular all sets of hard links', 'Tests follow one or two links through one step each.',
     [T + 'activity_links.py', L + 'linking.py'], [('validity checks', T + 'activity_links.py'), ('resolution of links', L + 'linking.py')],
     'trace check of hard links over complete model runs', REFNOTE)

exec(open(os.path.join(HERE, 'tools', 'meta2.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'meta2.py')) else None

P.sort(key=lambda p: p['row']['id'])
assert len({p['row']['id'] for p in P}) == len(P)
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p['row'], ensure_ascii=False) + '\n')
manifest = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': [{
        'property': p['row']['id'],
        'quick_cmd': './check.sh {} --tier quick'.format(p['row']['id']),
        'thorough_cmd': './check.sh {} --tier thorough'.format(p['row']['id']),
        'evidence_file': 'evidence/{}.json'.format(p['row']['id']),
        'technique': 'runtime monitoring: ' + p['technique'],
        'level': p['level'],
        'level_note': p['note'],
    } for p in P if p['claimed']],
    'not_applicable': [{'property': p['row']['id'], 'reason': p['reason']} for p in P if not p['claimed']],
    'notes': 'No hooks in /repo: all monitors observe public functions, files, processes and log events from outside. Known and fixed defects: KNOWN_FINDINGS.json. '
             'exit 2 = no answer (harness fault or a monitor that was never reached). Replay: ./check.sh <id> --replay <file>.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(P), 'properties,', len(manifest['checks']), 'checks')

# DESIGN.md from its template
with open(os.path.join(HERE, 'tools', 'DESIGN.tmpl.md')) as f:
    text = f.read()
import ast
rows = ['| property | technique | workloads (cases quick / thorough) | counted as distinct |', '|---|---|---|---|']
for p in P:
    fp = os.path.join(HERE, 'harness', 'checks', p['row']['id'].lower() + '.py')
    plan, rule = {}, ''
    if os.path.exists(fp):
        for node in ast.parse(open(fp).read()).body:
            if isinstance(node, ast.Assign) and node.targets[0].id == 'PLAN':
                plan = eval(compile(ast.Expression(node.value), '', 'eval'))
            elif isinstance(node, ast.Assign) and node.targets[0].id == 'RULE':
                rule = eval(compile(ast.Expression(node.value), '', 'eval'))
    work = ', '.join('{} {}/{}'.format(k, n, plan.get('thorough', {}).get(k, 0)) for k, n in plan.get('quick', {}).items())
    rows.append('| {} {} | {} | {} | {} |'.format(p['row']['id'], p['row']['title'], p['technique'], work, rule.replace('|', '/')))
text = text.replace('@@TABLE@@', '\n'.join(rows))
kf = json.load(open(os.path.join(HERE, 'KNOWN_FINDINGS.json')))
text = text.replace('@@KNOWN@@', '\n'.join(['* KNOWN: {property} {what}'.format(**k) for k in kf['known']] + ['* ' + x for x in kf['fixed']]))
seeds = os.path.join(HERE, 'tools', 'seeded.md')
text = text.replace('@@SEEDED@@', open(seeds).read() if os.path.exists(seeds) else 'none yet')
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write(text)
