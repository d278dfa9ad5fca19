import sys, importlib, traceback
import core

MODULES = {
    'C24': 'checks_code', 'C18': 'checks_corr', 'C23': 'checks_cat', 'C15': 'checks_model', 'C16': 'checks_model', 'C17': 'checks_model',
    'C19': 'checks_alg', 'C20': 'checks_alg', 'C22': 'checks_alg',
    'C01': 'checks_exp', 'C02': 'checks_exp',
    'C03': 'checks_pkf', 'C04': 'checks_pkf', 'C05': 'checks_pkf', 'C06': 'checks_pkf', 'C07': 'checks_pkf',
    'C08': 'checks_pkf', 'C09': 'checks_pkf', 'C10': 'checks_life', 'C11': 'checks_num', 'C12': 'checks_num', 'C13': 'checks_num', 'C14': 'checks_num', 'C21': 'checks_num',
}

if __name__ == '__main__':
    prop = sys.argv[1]
    chk = core.Check(prop)
    try:
        mod = importlib.import_module(MODULES[prop])
        getattr(mod, 'run_' + prop)(chk)
    except core.Machinery as e:
        chk.errors.append(str(e))
    except Exception:
        chk.errors.append(traceback.format_exc())
    rc = chk.finish()
    sys.stdout.flush()
    sys.exit(rc)
