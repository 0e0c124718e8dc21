"""run.py <property>: the check of one property (VERIF_TIER, VERIF_SEED)."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402

WHERE = {}
for mod, ids in {
        'c_guidelines': 'C01 C02 C03 C04 C05 C06 C07',
        'c_blending': 'C08 C09 C10 C11 C12 C13 C14 C15',
        'c_search': 'C16',
        'c_relay': 'C17 C18 C19 C20 C21',
        'c_rework': 'C22 C23',
        'c_optimise': 'C24 C25 C26',
        'c_layla': 'C27 C28',
        'c_setup': 'C29', 'c_plate': 'C30', 'c_transfer': 'C31',
        'c_workbook': 'C32', 'c_tools': 'C33', 'c_ortho': 'C34',
        'c_history': 'C35',
}.items():
    for i in ids.split():
        WHERE[i] = mod


def main():
    prop = sys.argv[1]
    mod = importlib.import_module(WHERE[prop])
    chk = core.Check(prop)
    try:
        getattr(mod, 'check_' + prop)(chk)
    except core.MachineryError as exc:
        print('ERROR property=%s %s' % (prop, exc))
        sys.exit(3)
    except Exception as exc:
        traceback.print_exc()
        if not raised_in_repo(exc):
            sys.exit(3)
        # the code under test fails while a scenario of the property is set
        # up with inputs that are valid: the property does not hold there
        chk.failures.append((
            {'id': 'setup', 'steps': [{
                'op': 'setup', 'k': 'exc', 'x': repr(exc)[:300],
                'where': traceback.format_exc().splitlines()[-12:]}]},
            1, 'the scenario can be set up'))
    sys.exit(chk.finish())


def raised_in_repo(exc):
    src = os.path.join(os.path.realpath(core.REPO), 'src') + os.sep
    return any(os.path.realpath(f.filename).startswith(src)
               for f in traceback.extract_tb(exc.__traceback__))


main()
