"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the source into gated value-graph terms, decided by polynomial normal forms'

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=AI, note='', observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe))


SM = ['regreg/smooth/__init__.py', 'regreg/smooth/glm.py', 'regreg/smooth/mglm.py', 'regreg/smooth/binary.py',
      'regreg/smooth/cox.py', 'regreg/smooth/quadratic.py', 'regreg/problems/composite.py']
LOSS = [{'name': 'smooth_objective of every loss', 'where': 'regreg/smooth/*.py, regreg/problems/composite.py'}]

prop('S01', 'Loss evaluation modes agree and unknown modes are rejected',
     "For every smooth loss or smooth composite and every argument, smooth_objective(x, 'both') returns exactly the pair "
     "(smooth_objective(x, 'func'), smooth_objective(x, 'grad')). Asking for any other mode raises an error instead of returning a value.",
     ['inputs', 'configurations'], 'every loss class, every argument and every combination of offset, coef and case weights',
     'tests evaluate a few random points of some losses and never an unknown mode; a branch that drifts in one mode only stays unseen', SM, LOSS)
prop('S02', 'Loss gradients are the derivatives of the loss values',
     "For every smooth loss, the gradient returned by smooth_objective is the derivative, with respect to the argument, of the value "
     "returned by smooth_objective, including the effect of offset, coef and case weights (at arguments of moderate size, away from overflow guards).",
     ['inputs', 'configurations'], 'every loss class and every argument and parameter setting',
     'finite-difference tests sample a few random points with default parameters; the identity must hold for all parameter values', SM, LOSS)
prop('S03', 'coef multiplies a loss, its gradient and its Hessian exactly once',
     "The coef parameter of a loss multiplies the value, the gradient, the Hessian and the Hessian product of that loss exactly once each, and changes nothing else.",
     ['inputs', 'configurations'], 'every loss class, argument and coef value',
     'tests use coef=1 almost everywhere, where a missing or doubled scaling cannot be seen', SM,
     LOSS + [{'name': 'hessian, hessian_mult', 'where': 'regreg/smooth/glm.py, binary.py, cox.py, mglm.py'}])
prop('S04', 'The offset of a loss is a shift of its argument',
     "A loss with offset a evaluated at x has the same value, gradient and Hessian as the same loss without offset evaluated at x - a, "
     "and nothing in its evaluation uses x and a other than through x - a.",
     ['inputs', 'configurations'], 'every loss class, argument and offset', 'most tests use offset=None; an offset forgotten in one method is invisible there', SM, LOSS)
prop('S05', 'Case weights weigh each case once in value, gradient and Hessian',
     "With case weights w, the value of a loss is the w-weighted sum of its per-case terms and its gradient and Hessian are those of that weighted sum; "
     "weights given at construction and weights given at the call multiply, and no weights means all ones.",
     ['inputs', 'configurations'], 'every loss class taking case weights, every argument and weight vector',
     'tests compare few integer weightings of a few losses; combinations of construction-time and call-time weights are not tried', SM, LOSS)
prop('S06', 'Hessians are the second derivatives of the loss',
     "The Hessian (or Hessian product, or curvature diagonal) a loss reports is the derivative of its gradient - for the probit and complementary log-log losses "
     "the documented expected information - and a generalized linear model evaluates it at its own linear predictor with its own offset, coef and weights.",
     ['inputs', 'configurations'], 'every loss with a Hessian, every argument and parameter setting',
     'tests check one or two losses at random points with default parameters', SM,
     [{'name': 'hessian / hessian_mult', 'where': 'regreg/smooth/glm.py, binary.py, cox.py, mglm.py'}])
prop('S07', 'Losses compute their documented formulas',
     "Up to a term that does not depend on the argument, each built-in loss computes its documented negative log-likelihood: Gaussian, logistic, probit, "
     "complementary log-log and Poisson likelihoods, the Huber loss, the Huberized SVM hinge and the quadratic loss.",
     ['inputs', 'configurations'], 'every listed loss and every argument, response and smoothing parameter',
     'value and gradient can be wrong together, which finite-difference tests accept', SM, LOSS)
prop('N01', 'Every name and attribute the package uses is defined',
     "No reachable operation of the package fails because it refers to a variable, module name, imported name or attribute that nothing defines, "
     "or reads a local variable before it can have been assigned.",
     ['programs', 'inputs'], 'every function and branch of the package', 'rarely used branches (error paths, alternative atoms, optional arguments) are never executed by the tests',
     ['regreg'], [{'name': 'all functions', 'where': 'regreg/'}],
     technique='scope, import and attribute resolution with may-assigned dataflow')
prop('N02', 'Calls inside the package match the signatures they reach',
     "Every call from the package to one of its own functions, constructors or methods supplies the required arguments, no unknown keywords and not too many positionals, "
     "for every class of object that can receive the call.",
     ['programs', 'inputs'], 'every call site and every possible receiver class', 'the tests run only some call sites with some receivers',
     ['regreg'], [{'name': 'all call sites', 'where': 'regreg/'}], technique='call-target resolution and signature agreement')

exec(open(os.path.join(HERE, 'tools', 'props_more.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'props_more.py')) else None

NA = globals().get('NA', [])


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], mechanism=p['mech'], state=[], observe_at=[p['observe'] or 'return values'], hook_needed=None))) + '\n')
    na = {n['property'] for n in NA}
    m = dict(version=1, setup_cmd='python3 -c "import sys; sys.exit(0 if sys.version_info >= (3, 9) else 1)"',
             checks=[dict(property=p['id'], quick_cmd='python3 run.py %s --tier quick' % p['id'],
                          thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
                          technique='static analysis: ' + p['technique'], level='other',
                          level_note=p['note'] or 'Universally quantified over inputs for every construct the analysis decides; the undecided constructs are listed in the evidence.')
                     for p in P if p['id'] not in na],
             not_applicable=NA,
             notes='All checks are pure static analyses of /repo (standard-library Python; nothing in /repo is imported or run).')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']


main()
