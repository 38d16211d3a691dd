"""Composes DESIGN.md from the modules of the properties, their evidence, the planted bugs and the texts below."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ['/repo', V + '/mc/stubs', V]
WHY = {
 'C01': ("plain vectors of seven exponents, kept for every unit that exists (including the predefined ones)",
         "Aliasing between a unit and the dictionary or unit it was made from shows only when the other one is looked at again after a further operation; the tests build each unit once."),
 'C02': ("dimensional analysis on exponent vectors, written from the rules; refused/accepted are both compared",
         "The rule differs by operator, by kind of operand and by side (number on the left), so it is a product space; tests touch a handful of points."),
 'C03': ("Python's own arithmetic on complex numbers",
         "Reversed operators, specified operands baked into the expression, and the textual form are three independent paths that must agree for each pair of operator and operand kind."),
 'C04': ("sets of leaves of the program that built the expression",
         "Shared maps between operands and results are invisible until a second expression is built from the same operand; every extension of every expression is built from one shared operand here."),
 'C05': ("a three-valued class computed from the program by the rules of the statement; unconstrained where the statement is silent",
         "The class of a result depends on the classes and specifiedness of both operands, a table that the tests sample at few places."),
 'C06': ("a record (value, flag, unit) per object", "Refusals that have already changed something, and stale values in expressions, need sequences of assignments."),
 'C07': ("numbers and exponent vectors", "Chains in which the result of one step is the operand of the next, or both operands are the same object."),
 'C08': ("the two programs evaluated separately in plain Python", "Two forms x pairs of sides x redefinitions x orders of arguments of the compiled function."),
 'C09': ("registers kept as plain lists of names", "Declarations may happen in the constructor, in the hooks, after preparation, repeatedly, and refused in the middle of all that."),
 'C10': ("registers of plain records, with a separate one for every copy", "Leaks between copy and original appear only after a later change of one of them, and along chains of incorporations."),
 'C11': ("the union of the models' registers", "The system must follow any history of additions and changes; tests resolve once."),
 'C12': ("a list of relations, evaluated numerically", "Loss or repetition of a connection needs several connections and a second resolution; refusals must leave every register alone."),
 'C13': ("a count of unknowns written from the statement", "The verdict is a function of sets of unknowns over several models, times and specified parameters; miscounts cancel in the usual examples."),
 'C14': ("exact rational elimination, known roots, residuals in plain arithmetic", "Orders of equations against orders of unknowns, coefficients that vanish, singular systems, and re-runs after changes."),
 'C15': ("an independent Runge-Kutta integration with a step of 2e-3 in plain Python", "A permutation of states shows only for particular orders of equations, declarations and columns; all of them are enumerated."),
 'C16': ("the algebraic unknowns eliminated by hand, then Runge-Kutta; each algebraic equation evaluated at each output", "As for C15, with the split into differentiated and algebraic unknowns on top."),
 'C17': ("tables as plain lists", "Histories over two domains sharing variables, with two independent variables."),
 'C18': ("a dictionary of settings with the stated order of precedence; the configuration in force is observed through what the run does", "Each setting has its own path from each of several sources; tests use two or three."),
 'C19': ("every evaluation recorded; the same algorithm configured directly in pygmo", "Bounds, direction and settings come from several places with a precedence; leaks into the given simulation show only afterwards."),
 'C20': ("the balances evaluated by hand", "Parameters are used in equations made at declaration and at resolution; orders of connection and declaration are enumerated."),
 'C21': ("lists of species and thermo's own chemicals", "Sharing between packages and of default arguments needs merges followed by changes of the other package."),
 'C22': ("the figure that is shown and the file that is written, inspected through matplotlib", "Options combine freely, and state left in pyplot shows only in the next plot."),
 'C24': ("what each thread gets alone; for threads in one model, the sets of equations and objects declared by all", "A state shared by accident shows only when two threads meet in a window of a few lines; a controlled scheduler visits every one of them."),
 'C23': ("the registers, and the printed relation evaluated by sympy at two points", "The report is a second rendering of the model that must agree with the first for every equation; tests do not look at it."),
}
HEAD = open(V + '/tools/design_head.md').read()
TAIL = open(V + '/tools/design_tail.md').read()
seeds = {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m['what_it_breaks'], m['needs']))
caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
out = [HEAD, '\n## Properties\n\nStatements are in properties.jsonl. Cost is that of the quick check on 8 cores.\n']
for k in sorted(WHY):
    title = next(json.loads(l)['title'] for l in open(V + '/properties.jsonl') if json.loads(l)['id'] == k)
    m = importlib.import_module('mc.props.' + k.lower())
    try:
        e = json.load(open(V + '/evidence/%s.json' % k))
        cost = '%d traces, %d states, %d transitions, %.0f s' % (e['coverage']['traces_validated_against_impl'], e['coverage']['states'],
                                                                  e['coverage']['transitions'], e['wall_s'])
    except Exception:
        cost = 'see the evidence file'
    out.append('\n### %s  %s\n\n* Explored (`mc/props/%s.py`): %s.\n* Bounds: quick: %s; thorough: %s.\n* Oracle: %s.\n* Cost: %s.\n* Beyond tests: %s\n' % (
        k, title, k.lower(), m.RULE, m.bounds('quick'), m.bounds('thorough'), WHY[k][0], cost, WHY[k][1]))
    for s, b, n in seeds.get(k, []):
        out.append('* Planted `%s`: %s Needs %s. %s\n' % (s, b, n, caught.get(s, 'Caught.')))
out.append('\n' + TAIL)
open(V + '/DESIGN.md', 'w').write(''.join(out))
