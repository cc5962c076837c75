"""Entry point: prepare an importable pwtools from /repo's working tree, then
hand over to checks/<id>.py."""
import os, sys, importlib.util
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import mc
pid = sys.argv[1]
path = os.path.join(os.path.dirname(here), 'checks', pid.lower() + '.py')
mc.prepare_repo()
spec = importlib.util.spec_from_file_location('check_' + pid.lower(), path)
mod = importlib.util.module_from_spec(spec)
sys.modules[spec.name] = mod
spec.loader.exec_module(mod)
sys.exit(mod.chk.main(sys.argv[2:]))
